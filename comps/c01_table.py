"""C01: hash tables behave as finite maps."""
from harness.core import split_runs


def script_of(beh):
    out = []
    for a, _, _ in beh:
        if a[0] == "eachdel":
            out.append("eachdel %d %s" % (a[1], " ".join(map(str, a[2]))))
        else:
            out.append(" ".join(map(str, a)))
    return out


def heads(dup):
    d = 2 if dup else 0
    hs = []
    for kind, h in (("i8", "lib"), ("i8", "const"), ("i8", "mod2"), ("i8", "id"), ("s", "lib"), ("s", "const"),
                    ("c", "const"), ("c", "mod2"), ("b", "const"), ("b", "lib"), ("i4", "lib"), ("i1", "lib")):
        for hint in ((0, 0), (1, 0), (1, 1), (3, 1), (10, 0), (600, 0)):
            hs.append("reset %s %s %d %d %d %d" % (kind, h, hint[0], hint[1] | d, 2, d))
    return hs


def random_run(rng, n):
    kind, h = rng.choice([("i8", "lib"), ("i8", "const"), ("i8", "mod2"), ("i8", "mod5"), ("i8", "id"), ("i4", "lib"),
                          ("i2", "lib"), ("s", "lib"), ("s", "const"), ("s", "mod3"), ("c", "mod4"), ("c", "const"),
                          ("b", "lib"), ("b", "const"), ("b", "mod2"), ("S", "lib"), ("B", "lib"), ("S", "const"), ("B", "mod3")])
    hints = [(0, 0), (1, 0), (2, 0), (7, 0), (10, 0), (64, 0), (511, 0), (512, 0), (1000, 0),
             (1, 1), (2, 1), (3, 1), (5, 1), (6, 1), (7, 1), (8, 1), (10, 1), (16, 1), (100, 1)]
    f1, f2 = rng.choice([0, 2]), rng.choice([0, 2])
    a, b = rng.choice(hints), rng.choice(hints)
    run = ["reset %s %s %d %d %d %d" % (kind, h, a[0], a[1] | f1, b[0], b[1] | f2)]
    nk = rng.choice([4, 8, 14])
    dup = [0, bool(f1), bool(f2)]
    cnt = {1: {}, 2: {}}           # bound duplicates per key (Copy permutes them)
    for i in range(n):
        t = rng.choice([1, 1, 2])
        k = rng.randint(0, nk)
        x = rng.random()
        if x < 0.45:
            if dup[t] and cnt[t].get(k, 0) >= 3:
                x = 0.8
            else:
                cnt[t][k] = cnt[t].get(k, 0) + 1
                run.append("set %d %d %d" % (t, k, rng.choice([0, rng.randint(1, 1000)])))
                continue
        if x < 0.6:
            run.append("get %d %d" % (t, k))
        elif x < 0.85:
            cnt[t][k] = max(0, cnt[t].get(k, 0) - 1)
            run.append("del %d %d" % (t, k))
        elif x < 0.9:
            run.append("eachstop %d %d" % (t, rng.randint(1, 20)))
        elif x < 0.95:
            if not dup[t]:
                D = rng.sample(range(nk + 1), rng.randint(0, min(4, nk)))
                for d in D:
                    cnt[t].pop(d, None)
                run.append("eachdel %d %s" % (t, " ".join(map(str, D))))
        elif not dup[t] and rng.random() < 0.5:
            for k in cnt[t]:
                cnt[3 - t][k] = cnt[3 - t].get(k, 0) + 1
            if max(list(cnt[3 - t].values()) + [0]) <= 4:
                run.append("copy %d %d" % (t, 3 - t))
    return run


def big_run(rng, hint, flags, n):
    run = ["reset i8 %s %d %d 0 0" % (rng.choice(["lib", "id"]), hint, flags)]
    ks = rng.sample(range(1, 4000), n)
    for k in ks:
        run.append("set 1 %d %d" % (k, k + 1))
    rng.shuffle(ks)
    for k in ks[:n // 2]:
        run.append("del 1 %d" % k)
    for k in ks:
        run.append("get 1 %d" % k)
    return run


def many(rng, n):
    kind = rng.choice(["i8", "i4", "s", "S", "B", "b"] if n < 5000 else ["i8", "i4", "s", "b"])
    f = 2 * (n < 500 and rng.random() < 0.5)
    m = rng.randint(2, n - 1)
    run = ["reset %s lib %d %d %d 0" % (kind, rng.choice([10, 100, 1000]) if n < 9999 else 4000, f, rng.choice([0, 10, 600]) if n < 9999 else 1000),
           "fill 1 1 %d" % n, "set 1 %d 5" % m, "find 1 1 %d" % (n + 2)]
    if not f:
        run += ["copy 1 2", "wipe 1 2 %d" % m, "find 2 1 %d" % n, "eachdel 1 %s" % " ".join(str(k) for k in range(m + 1, min(n, m + 300))), "copy 2 1"]
    return run + ["wipe 1 %d %d" % (m // 2 + 1, n), "set 1 %d 9" % n, "find 1 1 %d" % n, "fill 1 3 %d" % m, "find 1 1 %d" % n, "wipe 1 1 %d" % n, "eachstop 1 1", "get 2 %d" % m]


def check(c):
    c.model_check("Table", "TableMC.cfg")
    c.model_check("Table", "TableDupMC.cfg")
    c.model_check("TableImpl", "TableImplMC.cfg")
    exe = c.build_driver("table")
    for cfg, dup in (("TableGraph.cfg", False), ("TableDupGraph.cfg", True)):
        inits, edges = c.graph("Table", cfg)
        runs = []
        hs = heads(dup)
        for b in c.tours(inits, edges, maxlen=120):
            runs.append([c.rng.choice(hs)] + script_of(b))
        for h in hs:                               # every configuration at least once
            runs.append([h] + c.rng.choice(runs)[1:])
        c.drive_and_validate(exe, "TableTrace", "TableTrace.cfg", split_runs(runs, 5), "spec-behaviours")
    runs = [random_run(c.rng, 150) for _ in range(c.pick(80, 800))]
    c.drive_and_validate(exe, "TableTrace", "TableTrace.cfg", split_runs(runs, c.pick(5, 20)), "random histories")
    runs = [many(c.rng, n) for n in [130, 260, 300, 520, 1030, 2050, 4100, 10000] * c.pick(1, 4) + [65000] * c.pick(1, 3)]
    c.drive_and_validate(exe, "TableTrace", "TableTrace.cfg", split_runs(runs, 6), "thousands of keys", selftest=False)
    big = [big_run(c.rng, h, f, 60) for h, f in ((32767, 0), (32768, 0), (40000, 0), (65534, 0), (65535, 0), (70000, 0),
                                                 (1000, 1), (4000, 1), (48, 1), (255, 1))]
    hints = sorted({max(0, (1 << k) + d) for k in range(17) for d in (-1, 0, 1)} | set(range(1, 20)))
    big += [big_run(c.rng, h, c.rng.choice((0, 0, 1)), 40) for h in hints]
    c.drive_and_validate(exe, "TableTrace", "TableTrace.cfg", split_runs(big, 5), "bucket counts")
