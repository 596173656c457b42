"""C07: hierarchical pools that own their chunks."""
from harness.core import split_runs


def line(a):
    if a[0] == "destroy":
        return "destroy %d %s" % (a[1], " ".join(map(str, a[2])))
    return " ".join(map(str, a))


def random_run(rng, n, most=30, deep=False):
    run, parent = ["reset"], {}

    def below(p):
        s = {p}
        while True:
            t = s | {q for q in parent if parent[q] in s}
            if t == s:
                return s
            s = t
    for _ in range(n):
        x = rng.random()
        if x < (0.3 if most == 30 else 0.7) or not parent:
            if len(parent) > most:
                continue
            p = rng.choice([0] + list(parent) * 2) if not deep else max(parent, default=0) if rng.random() < 0.98 else 0
            k = min(set(range(1, 600)) - set(parent))
            parent[k] = p
            run.append("init %d" % p)
        elif x < 0.85:
            p = rng.choice(list(parent))
            op = rng.choice(["alloc", "strdup", "add"])
            sz = rng.choice([0, 1, 2, 7, 8, 33, 255] + ([256, 1000, 33000, 65537] if most > 30 else []))
            if op == "add" and rng.random() < 0.1:
                sz = -1
            run.append("%s %d %d %d" % (op, p, sz, 0 if op == "strdup" else rng.randint(0, 1)))
        elif most == 30 or rng.random() < 0.05:
            p = rng.choice(list(parent))
            b = below(p)
            run.append("destroy %d %s" % (p, " ".join(map(str, b))))
            for q in b:
                del parent[q]
    while parent:
        p = rng.choice(list(parent))
        b = below(p)
        run.append("destroy %d %s" % (p, " ".join(map(str, b))))
        for q in b:
            del parent[q]
    return run


def check(c):
    c.model_check("EzPool", "EzPoolMC.cfg")
    exe = c.build_driver("ezpool", extra=["-Wl,--wrap=" + f for f in ("malloc", "calloc", "free", "strdup")])
    inits, edges = c.graph("EzPool", "EzPoolGraph.cfg")
    runs = []
    for b in c.tours(inits, edges, maxlen=60):
        run = ["reset"] + [line(a) for a, _, _ in b]
        runs.append(run)
    c.drive_and_validate(exe, "EzPoolTrace", "EzPoolTrace.cfg", split_runs(runs, 6), "spec-behaviours")
    runs = [random_run(c.rng, 120) for i in range(c.pick(60, 600))]
    runs += [random_run(c.rng, n, 400, d) for n in c.pick((500,), (500,) * 12 + (60,) * 30) for d in (False, True)]
    runs += [random_run(c.rng, 40, 31) for _ in range(c.pick(6, 60))]
    c.drive_and_validate(exe, "EzPoolTrace", "EzPoolTrace.cfg", split_runs(runs, c.pick(8, 24)), "random histories")
