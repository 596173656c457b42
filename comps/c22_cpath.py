"""C22: cutting strings at delimiters, and paths."""
from harness.calls import small_model, judge


def string(r):
    A = r.choice([[47, 46, 97, 98], [47, 97], [47, 46], list(range(1, 256)), [58, 44, 120, 32]])
    s = [r.choice(A) for _ in range(r.choice([0, 1, 2, 3, 4, 5, 8, r.randint(0, 30)]))]
    if r.random() < 0.2:
        s += [47] * r.randint(1, 3)
    if r.random() < 0.2:
        s = [47] * r.randint(1, 3) + s
    return s


def path(r):
    if r.random() < 0.3:
        return string(r)
    names = ["a", "bin", "x.y", ".", "..", ".rc", "lib.so.1", "foo.c", "c", "\xe9t\xe9"]
    s = r.choice(["/" * r.randint(1, 2), ""]) + ("/" * r.choice([1, 1, 1, 2])).join(r.choice(names) for _ in range(r.randint(0, 4))) + r.choice(["", "", "", "/", "//"])
    return list(s.encode("latin-1"))


def call(r):
    op = r.choice(["split", "cut", "tok", "base", "base", "dir", "append", "abs"])
    s = string(r)
    d = r.choice(s + [47]) if r.random() < 0.9 else r.randint(1, 255)
    if op == "split":
        if r.random() < 0.02:
            return [op] + r.choice([[None, s], [s, None], [None, None]])
        return [op, s, list({r.choice(s + [47, 46]) for _ in range(r.randint(0, 3))})]
    if op == "cut":
        return [op, s, d, r.choice([0, 1, 2, -1])]
    if op == "tok":
        return [op, s, d]
    s = path(r)
    if op == "base":
        n = len(s)
        x = r.choice([None, [46, 99], s[-1:], s[-2:], s[-3:], s[-4:], [], [47], string(r)[:3], list(b".c"), list(b".rc"), list(b"foo")])
        return [op, s, x, r.choice([n + 1, n + 1, n + 20, 1, r.randint(1, n + 2)])]
    if op == "dir":
        return [op, s, r.choice([len(s) + 2, len(s) + 2, len(s) + 20, 1, r.randint(1, len(s) + 2)])]
    if op == "append":
        return [op, s or [47], path(r)]
    return [op, s]


def large(r):
    n = r.choice([127, 128, 200, 255, 256, 257, 300, 1030, 4090, 4100])
    w = lambda k: [r.choice([97, 98, 46]) for _ in range(k)]
    k = r.choice([1, 3, n // 2, n - 1])
    s = w(k) + [47] + w(n - k)
    op = r.choice(["split", "cut", "tok", "base", "dir", "append", "split"])
    if r.random() < 0.3:
        s = [47 if r.random() < 0.5 else 97 for _ in range(n)]
    if r.random() < 0.3:
        s = s + [47] * r.choice([1, 130, 260])
    if op == "split":
        return [op, s, [47]]
    if op == "cut":
        return [op, s, 47, r.choice([0, 1, 2, -1])]
    if op == "tok":
        return [op, s, 47]
    if op == "base":
        return [op, s, r.choice([None, s[-1:], s[-3:], s[-200:], w(2)]), r.choice([n + 400, n + 400, len(s) + 1, 130, 256])]
    if op == "dir":
        return [op, s, r.choice([len(s) + 2, len(s) + 2, 130, 256])]
    return [op, s if n < 1000 else [97], s if n < 1000 else w(300)]


def check(c):
    c.model_check("CPath", c.pick("CPathMC.cfg", "CPathMCBig.cfg"))
    exe = c.build_driver("cpath")
    small_model(c, "CPath", exe, none=True)
    judge(c, "CPath", exe, [call(c.rng) for _ in range(c.pick(6000, 100000))] + [large(c.rng) for _ in range(c.pick(200, 4000))], c.pick(8, 40), "random calls")
