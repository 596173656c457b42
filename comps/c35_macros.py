"""C35: the helper macros."""
from harness.core import split_runs

WIDE = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "int": 31}


def word(x):
    return (",".join(str(k) for k in x) or "-") if isinstance(x, list) else str(x)


def line(a):
    return " ".join(word(x) for x in a)


def some(r):
    k = r.random()
    v = lambda: r.choice([0, 1, -1, r.randint(-9, 9), r.randint(-200000000, 200000000)])
    if k < 0.4:
        t, b = r.choice(["u8", "u16", "u32", "u64"]), r.choice(["int", "u32", "u64"])
        return ["bits", t, b, sorted(r.sample(range(WIDE[t]), r.randint(0, WIDE[t]))), sorted(r.sample(range(WIDE[b]), r.choice([0, 1, 1, 2, r.randint(0, WIDE[b])])))]
    if k < 0.5:
        return ["abs", v(), v()]
    if k < 0.65:
        return ["clamp", v(), v(), v(), abs(v())]
    if k < 0.85:
        return [r.choice(["ceiling", "floor", "max", "min"]), v(), v(), v()]
    if k < 0.9:
        return ["indent", r.randint(0, 40)]
    if k < 0.95:
        return ["pad", r.randint(0, 9), r.randint(0, 9), r.randint(0, 9), r.randint(0, 9)]
    s = r.randint(0, 50)
    return ["to", s + r.randint(0, 100), r.randint(1, 20), s]


def check(c):
    c.model_check("Macros", "MacrosMC.cfg")
    exe = c.build_driver("macros")
    _, edges = c.graph("Macros", "MacrosGraph.cfg")
    todo = [a for v in edges.values() for a, _ in v]
    c.cov["spec_behaviours_replayed"] += len(todo)
    c.cov["transitions_replayed"] += len(todo)
    c.rng.shuffle(todo)
    c.drive_and_validate(exe, "MacrosTrace", "MacrosTrace.cfg", split_runs([[line(a)] for a in todo], 8), "every use of the small model")
    todo = [some(c.rng) for _ in range(c.pick(4000, 100000))]
    c.drive_and_validate(exe, "MacrosTrace", "MacrosTrace.cfg", split_runs([[line(a)] for a in todo], c.pick(8, 24)), "random uses")
