"""C06: memory pools and pool groups."""
from harness.core import split_runs


def line(a):
    if a[0] == "init":
        return "init %d 2 %d %d" % (a[1], a[2], a[3])
    if a[0] == "show":
        return "show %d %d %d %d" % (a[1], a[2], a[3], (a[1] + a[2] + a[3]) % 4)
    return " ".join(map(str, a))


def random_run(rng, n):
    run, live = ["reset"], set()
    for p in (1, 2, 3):
        size = rng.choice([1, 5, 8, 16, 24, 100, 500, 1000, 1900, 2020, 2027, 2028, 2031, 2032, 2033, 2040, 2100, 3000,
                           4064, 5000])
        if size < 500 and rng.random() < 0.7:
            size = rng.choice([900, 1300])
        elts = rng.choice([0, 1, 2, 3, 5, 8])
        if rng.random() < 0.15:
            run.append("fail %d" % rng.randint(1, 3))
        run.append("init %d %d %d %d" % (p, elts, size, rng.randint(0, 2)))
    if rng.random() < 0.5:
        s = [rng.choice([100, 700, 1500, 2100, 3000]) for _ in range(3)]
        if rng.random() < 0.6:
            s.sort()
        if rng.random() < 0.2:
            run.append("fail %d" % rng.randint(1, 9))
        run.append("ginit %d %d %d %d" % (s[0], s[1], s[2], rng.choice([1, 2, 3, 3, 3])))
    grow = 0.5
    for _ in range(n):
        if rng.random() < 0.05:
            grow = rng.choice([0.2, 0.4, 0.6, 0.75])
        x = rng.random()
        free = min(set(range(1, 4000)) - live)
        if rng.random() < 0.06:
            run.append("show %d %d %d %d" % (rng.randint(0, 2), rng.randint(1, 6), rng.randint(0, 3), rng.choice([0, 0, 1, 5])))
        if rng.random() < 0.03:
            h = rng.randint(1, 2)
            if rng.random() < 0.3:
                run.append("fail %d" % rng.randint(1, 2))
            run.append(rng.choice(["heap %d %d" % (h, rng.choice([1, 2, 8, 100, 5000])), "unheap %d" % h]))
        if x < grow * 0.9:
            if len(live) > 60:
                continue
            if rng.random() < 0.05:
                run.append("fail 1")
            if rng.random() < 0.25:
                run.append("galloc %d" % rng.choice([1, 100, 101, 700, 1500, 1501, 2100, 3000, 3001]))
            else:
                run.append("alloc %d" % rng.randint(1, 3))
            live.add(free)           # a guess: the driver skips releases of elements it does not have
        elif x < 0.9:
            if live:
                e = rng.choice(sorted(live))
                live.discard(e)
                run.append("release %d" % e)
        elif x < 0.93:
            run.append("trim %d" % rng.randint(1, 3))
        elif x < 0.95:
            p = rng.randint(1, 3)
            run.append("destroy %d" % p)
            if rng.random() < 0.5:
                run.append("init %d %d %d %d" % (p, rng.randint(0, 4), rng.choice([900, 1300, 2100]), rng.randint(0, 2)))
        elif x < 0.97:
            run.append("find %d" % rng.randint(1, 12))
        elif x < 0.99:
            run.append("cb %d" % rng.choice([0, 1, -1]))
        elif rng.random() < 0.5:
            run.append("gdestroy")
    if rng.random() < 0.5:
        for e in sorted(live, key=lambda _: rng.random()):
            run.append("release %d" % e)
        for p in (1, 2, 3):
            run.append("destroy %d" % p)
        run.append("gdestroy")
    return run


def many(rng):
    run, size = ["reset"], {}
    for p in (1, 2):
        size[p] = rng.choice([1, 2, 4, 8, 16, 60, 500, 900, 1300])
        run.append("init %d %d %d %d" % (p, rng.choice([0, 1, 3, 50, 300]), size[p], rng.randint(0, 2)))
    if rng.random() < 0.3:       # hundreds of elements in one page
        run.append("init 3 %d %d %d" % (rng.choice([127, 128, 255, 256, 257, 300]), rng.choice([2100, 2500]), rng.randint(0, 2)))
        run += ["takes 3 %d" % rng.choice([100, 254, 260]), "show 0 3 3 0", "alloc 3"]
    n = {p: rng.choice([280, 600, 1100] if size[p] < 100 else [280, 600, 1250]) for p in (1, 2)}
    for p in (1, 2):
        run += ["takes %d %d" % (p, n[p]), "alloc %d" % p]
    k = sum(n.values()) + 2
    a, b = sorted((rng.randint(1, k), rng.randint(1, k)))
    run += ["drops %d %d" % (a, b), "cb %d" % rng.randint(0, 1), "release %d" % rng.randint(1, k)] + ["alloc %d" % rng.randint(1, 2) for _ in range(5)]
    run += ["takes %d %d" % (rng.randint(1, 2), rng.choice([1, b - a, 300])), "trim 1", "show 2 1 3 1", "find 5", "drops 1 %d" % rng.randint(1, k), "trim 2", "drops 1 4000",
            "alloc 1", "takes 2 400", "destroy 2", "drops 2 4000", "destroy 2", "drops 1 1", "destroy 1"]
    return run


def check(c):
    c.model_check("Pool", "PoolMC.cfg", allow=("Others", "Show", "Heap", "Unheap"))
    c.model_check("Pool", "PoolGroupMC.cfg")
    exe = c.build_driver("pool", extra=["-Wl,--wrap=malloc", "-Wl,--wrap=free"])
    runs = []
    for cfg in ("PoolGraph.cfg", "PoolGroupGraph.cfg"):
        inits, edges = c.graph("Pool", cfg)
        for b in c.tours(inits, edges, maxlen=150):
            runs.append(["reset"] + [line(a) for a, _, _ in b])
    c.drive_and_validate(exe, "PoolTrace", "PoolTrace.cfg", split_runs(runs, 6), "spec-behaviours")
    runs = [random_run(c.rng, 150) for i in range(c.pick(60, 800))]
    c.drive_and_validate(exe, "PoolTrace", "PoolTrace.cfg", split_runs(runs, c.pick(6, 24)), "random histories")
    runs = [many(c.rng) for i in range(c.pick(24, 240))]
    c.drive_and_validate(exe, "PoolTrace", "PoolTrace.cfg", split_runs(runs, c.pick(8, 24)), "hundreds of elements")
