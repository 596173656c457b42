"""C02: sets and set algebra."""
from harness.core import split_runs

KINDS = ["i8", "i4", "i1", "p"]


def random_run(rng, n):
    run = ["reset " + rng.choice(KINDS)]
    m = rng.choice([3, 8, 20])
    for i in range(n):
        a, b, d = (rng.randint(1, 3) for _ in range(3))
        x = rng.randint(0, m)
        op = rng.choices(["insert", "remove", "member", "union", "inter", "diff", "subset", "equal", "size", "eachstop",
                          "destroy"], [30, 14, 8, 5, 6, 6, 8, 8, 3, 3, 4])[0]
        if op in ("insert", "remove", "member"):
            run.append("%s %d %d" % (op, a, x))
        elif op in ("union", "inter", "diff"):
            run.append("%s %d %d %d" % (op, a, b, d))
        elif op in ("subset", "equal"):
            run.append("%s %d %d" % (op, a, b))
        elif op == "eachstop":
            run.append("eachstop %d %d" % (a, rng.randint(1, 12)))
        else:
            run.append("%s %d" % (op, a))
    return run


def check(c):
    c.model_check("Set", "SetMC.cfg")
    exe = c.build_driver("set")
    inits, edges = c.graph("Set", "SetGraph.cfg")
    runs = [["reset " + KINDS[i % 4]] + [" ".join(map(str, a)) for a, _, _ in b]
            for i, b in enumerate(c.tours(inits, edges, maxlen=150))]
    c.drive_and_validate(exe, "SetTrace", "SetTrace.cfg", split_runs(runs, 5), "spec-behaviours")
    runs = [random_run(c.rng, 150) for _ in range(c.pick(80, 1000))]
    big = ["reset i8"] + ["insert %d %d" % (1 + i % 2, i) for i in range(0, 300)] + \
        ["union 3 1 2", "subset 1 3", "inter 3 1 2", "diff 2 3 1", "equal 2 3"] + \
        ["remove 3 %d" % i for i in range(0, 300, 3)] + ["diff 1 3 2", "destroy 3"]
    runs.append(big)
    for n in [260, 1030, 4100] + [66000] * c.pick(1, 3):
        m = n - n // 3
        runs.append(["reset " + c.rng.choice(["i8", "i8", "p"]), "fill 1 1 %d" % n, "size 1", "fill 2 %d %d" % (m, n + 200), "member 1 %d" % n,
                     "union 3 1 2", "size 3", "subset 1 3", "subset 3 1", "equal 1 3", "drop 3 %d %d" % (n + 1, n + 200), "equal 3 1",
                     "eachstop 3 %d" % n, "remove 3 %d" % c.rng.randint(1, n), "equal 1 3", "subset 3 1", "destroy 3", "inter 3 1 2", "diff 3 1 2",
                     "equal 1 3", "drop 1 2 %d" % min(m, 400), "size 1", "fill 1 1 %d" % m, "equal 3 1"] +
                    (["drop 1 1 %d" % (n + 5), "size 1", "fill 1 5 9"] if n < 9999 else []))
    c.drive_and_validate(exe, "SetTrace", "SetTrace.cfg", split_runs(runs, c.pick(5, 20)), "random histories")
