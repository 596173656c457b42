"""C23: formatted text."""
from harness.calls import small_model, judge

HOW = ["format", "format", "fprintf", "printf", "string", "sprintf", "sprintf"]


def integer(r):
    k = r.random()
    v = r.choice([0, 1, 9, 10, 0x7fffffff, 0x80000000, 0xffffffff, 0x80000001, 8, 255]) if k < 0.4 else r.getrandbits(r.randint(1, 32))
    return small(v - (1 << 32) if k > 0.8 and v > 0x7fffffff else v)


def small(v):
    return [0] + list((v & 0xffffffff).to_bytes(4, "big"))


def string(r):
    return [1] + [r.choice([37, 32, 97, 98, 48, 45, 255, r.randint(1, 255)]) for _ in range(r.choice([0, 1, 2, 3, 5, 8, r.randint(0, 40)]))]


def frac(r):
    k = r.random()
    s = r.choice([0, 1, 2, 3, 4, 12, r.randint(0, 12)])
    if k < 0.3:
        n = r.choice([0, 1, 2, 3, 5, 10, 99, 100, 999, 9999, 10000, 99999, 100000, 999999, 1000000])
    elif k < 0.5:
        n = (10 ** r.randint(0, 4)) * (1 << s) - r.choice([0, 1])
        n = min(n, (1 << 20) - 1)
    else:
        n = r.getrandbits(r.randint(1, 20))
    return [2, 0 if n == 0 else r.randint(0, 1)] + list(n.to_bytes(3, "big")) + [s]


def pointer(r):
    return [3] + list(r.getrandbits(r.choice([1, 4, 16, 32, 48, 64])).to_bytes(8, "big"))


def directive(r, wide):
    c = r.choice("ddduoxpcsssefgSNQUPD")
    f = "".join(r.choice("+- 0#") for _ in range(r.choice([0, 0, 1, 1, 2, 3])))
    if c in "uoxp":
        f = f.replace("+", "").replace(" ", "")
    t, a = r.choice("%~") + f, []
    w = r.choice([1, 2, 3, 5, 8, 12, r.randint(1, 30)] + ([r.randint(200, 600)] if wide else []))
    k = r.random()
    if k < 0.4:
        t += str(w)
    elif k < 0.6:
        t += "*"
        a.append(small(r.choice([w, -w, 0])))
    k = r.random()
    p = r.choice([0, 0, 1, 2, 3, 5, 10, r.randint(0, 40)])
    if k < 0.3:
        t += ".%d" % p
    elif k < 0.45:
        t += ".*"
        a.append(small(r.choice([p, p, -1, -p])))
    if c == "N":
        v = [1] + list(r.choice([b"", b"+", b"-"]) + str(r.getrandbits(r.randint(1, 40))).encode())
    else:
        v = pointer(r) if c in "p" else frac(r) if c in "efgD" else string(r) if c in "sS" else [3] + [0] * 4 + integer(r)[1:] if c == "P" else integer(r)
    return list((t + c).encode()), a + [v]


def call(r):
    f, a = [], []
    wide = r.random() < 0.1
    for _ in range(r.choice([1, 1, 1, 2, 3, 0])):
        f += [r.choice([97, 32, 10, 200, 48, 46, 42, 45]) for _ in range(r.choice([0, 0, 0, 1, 3]))]
        if r.random() < 0.2:
            f += list(r.choice([b"%%", b"~~", b"%~", b"~%"]))
        t, v = directive(r, wide)
        if sum(x[0] != 2 for x in a + v) > 12:
            break
        f += t
        a += v
    f += [r.choice([97, 32, 10, 46]) for _ in range(r.choice([0, 0, 1, 3]))]
    op = r.choice(HOW)
    return [op, f, r.choice([1, 2, 3, 5, 10, 20, 100, 700]) if op == "sprintf" else 0] + a


def check(c):
    c.model_check("Fmt", "FmtMC.cfg")
    exe = c.build_driver("fmt", "asan")
    r = c.rng
    small_model(c, "Fmt", exe)
    calls = [call(r) for _ in range(c.pick(6000, 100000))]
    calls += [["register", r.choice([99, 100, 101, 102, 103, 111, 112, 115, 117, 120, 1, 90, 127, 128, 200, 255, r.randint(128, 255)]), 0] for _ in range(200)]
    # a string as long as the room a new string starts with, and about that
    calls += [["string", list(b"%s"), 0, [1] + [65] * n] for n in list(range(250, 260)) + [511, 512, 513, 1024]]
    # long texts, fields and precisions
    for n in (126, 127, 128, 129, 254, 255, 256, 257, 300, 511, 513, 1030) + c.pick((5000,), (5000, 33000, 66000)):
        s = [1] + [r.choice([65, 66, 37]) for _ in range(n)]
        for op in ("format", "fprintf", "string", "sprintf"):
            room = r.choice([n, n + 1, n + 9, 255, 256, 257, 300])
            calls += [[op, list(f), room] + a for f, a in ((b"%s", [s]), (b"%.*s", [small(n - 1), s]), (b"[%*s]", [small(n), [1, 65]]), (b"[%-*s]", [small(n), [1, 65]]),
                      (b"%%%ds" % n, [[1, 66]]), (b"%%.%dd" % n, [small(r.getrandbits(31))]), (b"%%0%dx|" % n, [small(255)]), (b"%%-%du|" % n, [small(7)]))
                      if n < 1100 or b"*s" not in f]
            calls.append([op, s[1:n // 2] and [65] * n, room])
    r.shuffle(calls)
    judge(c, "Fmt", exe, calls, c.pick(8, 40), "random calls")
