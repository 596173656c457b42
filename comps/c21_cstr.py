"""C21: string slices and searches."""
from harness.calls import small_model, judge


def string(r, n=None, A=None):
    A = A or r.choice([[97, 98], [97, 98, 99, 32, 10], list(range(1, 256)), list(range(220, 256)) + [1, 127, 128], [32, 9, 10, 97]])
    n = r.choice([0, 1, 1, 2, 3, 4, 5, 8, r.randint(0, 20)]) if n is None else n
    return [r.choice(A) for _ in range(n)]


def pos(r, s):
    n = len(s)
    if not n:
        return r.choice([0, -1, 1, 5, -3])
    return r.choice([0, -1, n - 1, -n, n, n + 3, r.randint(-n, n + 2), r.randint(-n, n - 1)])


def sl(r, s=None):
    s = string(r) if s is None else s
    return [s, pos(r, s), pos(r, s)]


def part(r, s):
    """something likely to be found"""
    if s and r.random() < 0.7:
        i = r.randrange(len(s))
        p = s[i:i + r.randint(1, 4)]
        return p + string(r, 1) if r.random() < 0.2 else p
    return string(r, r.randint(0, 4))


def woven(r):
    """something to find in a text full of its own beginnings and ends"""
    p = string(r, r.randint(2, 5), r.choice([[97, 98], [97, 97, 97, 98], [97, 98, 99]]))
    s = []
    for _ in range(r.randint(1, 4)):
        k = r.randint(1, len(p))
        s += r.choice([p[:k], p[-k:], p[:k] * 2, p[:1]])
    if r.random() < 0.8:
        s += p
    if r.random() < 0.5:
        s += p[:r.randint(0, len(p))]
    return [r.choice(["find", "rfind"])] + (sl(r, s) if r.random() < 0.4 else [s, 0, -1]) + [p]


def call(r):
    if r.random() < 0.12:
        return woven(r)
    op = r.choice(["sub", "dup", "cat", "catv", "rev", "map", "pos", "len", "cmp", "cmp", "chr", "rchr", "upto", "rupto", "any", "rany", "find", "find", "rfind",
                   "rfind", "copy", "chomp", "strip", "strip", "rspn", "rcspn"])
    s = string(r)
    x = sl(r, s)
    if op in ("sub", "rev", "len"):
        return [op] + x
    if op == "dup":
        return [op] + x + [r.randint(0, 4)]
    if op == "copy":
        return [op] + x + [r.choice([0, 1, len(s), r.randint(0, 25)])]
    if op == "catv":
        for _ in range(r.randint(0, 2)):
            x += sl(r)
        return [op] + x
    if op in ("cat", "cmp"):
        t = list(s) if r.random() < 0.6 else string(r)
        if t and r.random() < 0.3:
            t[r.randrange(len(t))] = r.randint(1, 255)
        y = sl(r, t)
        if r.random() < 0.3 and t == s:
            y = [t] + x[1:]
        return [op] + x + y
    if op == "map":
        f = list(set(string(r, r.randint(0, 8)) + (s[:3])))
        return [op] + x + [f, [r.randint(1, 255) for _ in f]]
    if op == "pos":
        s = s or [97]
        return [op, s, pos(r, s)]
    if op in ("chr", "rchr"):
        return [op] + x + [r.choice(s + [r.randint(1, 255)])]
    if op in ("upto", "rupto", "any", "rany", "find", "rfind"):
        return [op] + x + [part(r, s)]
    if op in ("chomp", "strip"):
        s = string(r, None, r.choice([[32, 9, 10, 97], [32, 10, 13, 97, 98], list(range(1, 256))]))
        if r.random() < 0.3:
            s += [10]
        return [op, s]
    return [op, s, part(r, s) + string(r, r.randint(0, 3))]


BIG = [127, 128, 129, 255, 256, 257, 300, 520]


def large(r, n):
    """long texts, and long things to find in them"""
    A = r.choice([[97, 98], [97], list(range(1, 256))])
    s = string(r, n, A)
    i = r.choice([0, -1, n - 1, -n, n // 2, n - 3, r.randint(-n, n - 1)])
    x = [s, i, r.choice([-1, -1, n - 1, n, r.randint(-n, n - 1)])] if r.random() < 0.6 else [s, 0, -1]
    op = r.choice(["sub", "dup", "cat", "catv", "catv", "rev", "map", "pos", "len", "cmp", "chr", "rchr", "upto", "rupto", "any", "rany", "find", "rfind", "find", "rfind",
                   "copy", "chomp", "strip", "rspn", "rcspn"])
    if op in ("sub", "rev", "len"):
        return [op] + x
    if op == "dup":
        return [op] + x + [r.choice([2, 3, 200 if n < 600 else 2])]
    if op == "copy":
        return [op] + x + [r.choice([n, n - 1, n + 1, 256, 255])]
    if op == "catv":
        for _ in range(r.choice([0, 1, 2])):
            x += [string(r, r.choice([3, n]), A), 0, -1]
        return [op] + x
    if op in ("cat", "cmp"):
        t = list(s)
        if r.random() < 0.5:
            t[r.choice([-1, n // 2, n - 2])] = r.randint(1, 255)
        return [op] + x + [t] + (x[1:] if r.random() < 0.7 else [0, -1])
    if op == "map":
        return [op] + x + [s[:2], [120] * len(s[:2])]
    if op == "pos":
        return [op, s, i]
    if op in ("chr", "rchr", "upto", "rupto", "any", "rany"):
        at = r.choice([0, n - 1, n // 2, 255 if n > 255 else 0])
        s[:] = [97] * n
        s[at] = 122
        return [op] + x + ([122] if op in ("chr", "rchr") else [[122, 121]] if op in ("any", "rany") else [r.choice([[97], [122], [98]])])
    if op in ("find", "rfind"):
        k = r.choice([1, 2, 127, 130, 255, 257, n - 1, n])
        k = min(k, n)
        at = r.choice([0, n - k, r.randint(0, n - k)])
        p = s[at:at + k]
        if r.random() < 0.2:
            p = p[:-1] + [r.randint(1, 255)]
        return [op] + x + [p]
    if op in ("chomp", "strip"):
        b = [r.choice([32, 10, 9]) for _ in range(r.choice([3, 130, 260, n]))]
        return [op, r.choice([b + s, s + b, b + s + b])]
    return [op, s, r.choice([[97], [97, 98], s[-2:], s[:1]])]


def check(c):
    c.model_check("CStr", c.pick("CStrMC.cfg", "CStrMCBig.cfg"))
    exe = c.build_driver("cstr")
    r = c.rng
    small_model(c, "CStr", exe)
    runs = [call(r) for _ in range(c.pick(8000, 150000))]
    # every character mapped, searched and compared
    for b in range(1, 256):
        runs += [["map", [b, 255 - b or 1], 0, -1, [], []], ["map", [b, b], 0, -1, [b], [r.randint(1, 255)]], ["rupto", [b, 97], 0, 0, [b]],
                 ["find", [97, b], 0, -1, [b]], ["cmp", [97, b], 0, -1, [97, r.randint(1, 255)], 0, -1]]
    runs += [large(r, n) for n in BIG for _ in range(c.pick(50, 600))] + [large(r, n) for n in c.pick([5000], [5000, 33000, 66000]) for _ in range(c.pick(25, 100))]
    r.shuffle(runs)
    judge(c, "CStr", exe, runs, c.pick(8, 40), "random calls")
