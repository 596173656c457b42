"""C24: random sequences."""
from harness.core import split_runs


def untemper(y):
    y ^= y >> 18
    y ^= (y << 15) & 0xefc60000
    x = y
    for _ in range(5):
        x = y ^ ((x << 7) & 0x9d2c5680)
    x &= 0xffffffff
    z = x
    for _ in range(3):
        z = x ^ (z >> 11)
    return z


def seed(r):
    return r.choice([0, 1, 5489, 0x7fffffff, 0x80000000, 0xffffffff, r.getrandbits(32), r.getrandbits(16)])


def run(r, long):
    out = ["reset"]
    for _ in range(r.randint(3, 9)):
        c, k = r.randint(1, 3), r.random()
        if k < 0.2:
            out.append("seed %d %d" % (c, seed(r)))
        elif k < 0.4:
            n = r.choice([1, 2, 4, 10, 623, 624, 625, 700, r.randint(1, 1300)] if long else [1, 2, 3, 4, r.randint(1, 20)])
            out.append("array %d %s" % (c, " ".join(str(seed(r)) for _ in range(n))))
        elif k < 0.9:
            out.append("draw %d %d" % (c, r.choice([1, 2, 5, 226, 227, 228, 396, 397, 398, 623, 624, 625, 700] if long else [1, 1, 2, 10, 230, 624])))
        else:
            out.append("real %d %d %d" % (c, r.randint(1, 20), r.randint(0, 2)))
    return out


def check(c):
    c.model_check("Mt", c.pick("MtMC.cfg", "MtMCBig.cfg"), allow=("Real", "Load"))
    exe = c.build_driver("random", extra=["-Wl,--wrap=time"])
    r = c.rng
    runs = [run(r, i % 3 == 0) for i in range(c.pick(60, 600))]
    # well into the sequence, three of them side by side
    runs += [["reset", "seed 1 %d" % seed(r), "array 2 %d %d" % (seed(r), seed(r))] +
             ["draw %d %d" % (r.randint(1, 3), r.randint(1, 400)) for _ in range(c.pick(25, 60))] for _ in range(c.pick(2, 16))]
    # the smallest and the largest number
    for kind in range(3):
        for y in (0, 1, 0xffffffff, 0xfffffffe, 0x80000000, 0x7fffffff):
            runs.append(["reset", "load 1 %d" % untemper(y), "real 1 %d %d" % (r.randint(1, 5), kind)])
    r.shuffle(runs)
    c.drive_and_validate(exe, "MtTrace", "MtTrace.cfg", split_runs(runs, c.pick(8, 32)), "seeds and draws")
