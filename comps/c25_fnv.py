"""C25: FNV hashes."""
from harness.calls import small_model, judge


def data(r):
    n = r.choice([0, 1, 2, 3, 4, 7, 8, r.randint(0, 40)])
    return [r.choice([0, 255, 128, 127, r.randint(0, 255), r.randint(1, 255), r.randint(1, 255)]) for _ in range(n)]


def start(r, n):
    k = r.random()
    return [0] * n if k < 0.3 else [255] * n if k < 0.35 else [r.randint(0, 255) for _ in range(n)]


def call(r):
    op = r.choice(["buf32", "str32", "buf64", "str64", "fold", "foldto"])
    if op == "fold":
        return [op, start(r, 4), r.choice([4, 8, 16, 24])]
    if op == "foldto":
        return [op, start(r, 4), r.choice([0, 1, 15, 16, 17, 31, 32, r.randint(0, 33)])]
    return [op, data(r), start(r, 8 if op.endswith("64") else 4)]


def check(c):
    c.model_check("Fnv", "FnvMC.cfg")
    exe = c.build_driver("fnv")
    r = c.rng
    small_model(c, "Fnv", exe, 4)
    calls = [call(r) for _ in range(c.pick(3000, 60000))] + [[o, [b], [0] * (8 if o.endswith("64") else 4)] for b in range(256) for o in ("buf32", "buf64", "str32", "str64")]
    calls += [[o, [r.randint(1, 255) for _ in range(n)], [0] * (8 if o.endswith("64") else 4)] for n in (255, 256, 257, 1000, 33000, 66000) for o in ("buf32", "buf64", "str32", "str64")]
    r.shuffle(calls)
    judge(c, "Fnv", exe, calls, c.pick(4, 32), "random calls")
