"""C20: SHA-1 hashing piece by piece."""
from harness.core import split_runs

EDGE = [0, 0, 1, 2, 3, 7, 8, 9, 31, 54, 55, 56, 57, 62, 63, 64, 65, 118, 119, 120, 121, 127, 128, 129, 191, 192, 200]


def hx(b):
    return "x" + bytes(b).hex()


def rb(r, n):
    k = r.random()
    return [r.choice([0, 255, 128, 1]) for _ in range(n)] if k < 0.2 else [r.randint(0, 255) for _ in range(n)]


def one(r, n, cuts, c=1):
    """a message of n bytes cut at the given places"""
    m, out, at = rb(r, n), ["init %d" % c], 0
    for k in sorted(cuts) + [n]:
        out.append("update %d %s" % (c, hx(m[at:k])))
        at = k
    return out + ["final %d" % c]


def mixed(r):
    """three contexts at once"""
    out, on = ["reset"], set()
    for _ in range(r.randint(8, 30)):
        c = r.randint(1, 3)
        if c not in on:
            on.add(c)
            out.append("init %d" % c)
        elif r.random() < 0.2:
            on.discard(c)
            out.append("final %d" % c)
        elif r.random() < 0.03:
            out.append("init %d" % c)
        else:
            out.append("update %d %s" % (c, hx(rb(r, r.choice(EDGE + [r.randint(0, 150)])))))
        if r.random() < 0.1:
            out.append("data " + hx(rb(r, r.choice(EDGE))))
    return out + ["final %d" % c for c in sorted(on)]


def check(c):
    c.model_check("Hash", c.pick("HashMC.cfg", "HashMCBig.cfg"), allow=("Whole", "ToText", "OfText"))
    exe = c.build_driver("sha1")
    r = c.rng
    runs = []
    for n in range(0, c.pick(131, 260)):
        runs.append(["reset"] + one(r, n, []) + ["data " + hx(rb(r, n))])
        for _ in range(c.pick(1, 4)):
            runs.append(["reset"] + one(r, n, [min(n, x) for x in r.sample(EDGE, r.randint(1, 3))]))
    for k in EDGE:
        for e in EDGE:
            if c.thorough or r.random() < 0.4:
                runs.append(["reset"] + one(r, k + e, [k]))
    for _ in range(c.pick(25, 300)):
        runs.append(mixed(r))
    for n in (c.pick([1000, 5000], [1000, 5000, 20000, 70000])):
        runs.append(["reset"] + one(r, n, [r.randint(0, n) for _ in range(5)]))
    r.shuffle(runs)
    c.drive_and_validate(exe, "HashTrace", "HashTrace.cfg", split_runs(runs, c.pick(8, 24)), "messages and their cuts")
    run = ["reset"]
    H = "0123456789abcdef"
    for i in range(256):
        p = r.randint(0, 19)
        d = rb(r, 20)
        d[p] = i
        run.append("tostr " + hx(d))
        t = [r.choice(H + "ABCDEF") for _ in range(40)]
        t[2 * p:2 * p + 2] = [r.choice([H[i >> 4], H[i >> 4].upper()]), r.choice([H[i & 15], H[i & 15].upper()])]
        run.append("tosha " + hx("".join(t).encode()))
    c.drive_and_validate(exe, "HashTrace", "HashTrace.cfg", [run], "digests as text")
    # more than 2^32 bits
    exe = c.build_driver("sha1", "plain")
    runs = []
    for k in c.pick([(1 << 29), 65536 + 7], [1 << 29, (1 << 28) + 5, 65536 + 7, 4096, 33]):
        runs.append(["reset", "init 2", "many 2 %d" % k, "update 2 " + hx(rb(r, r.choice(EDGE))), "final 2"])
    runs.append(["reset", "init 2", "many 2 %d" % (1 << 24), "final 2"])
    for k in c.pick([2], [2, 3, 63, 64, 65, 127, 1 << 31]):         # nearly 2^32 bytes at once
        runs.append(["reset", "init 3", "huge 3 %d" % k, "update 3 " + hx(rb(r, r.choice(EDGE))), "final 3"])
    c.drive_and_validate(exe, "HashTrace", "HashTrace.cfg", split_runs(runs, len(runs)), "a message longer than 2^32 bits", timeout=300)
