"""C10: arrays of fixed-size elements."""
from harness.core import split_runs, VP_WRAP


def line(a):
    if a[0] in ("with", "setdata"):
        return "%s %d %d %d %d" % (a[0], a[1], len(a[2]), a[3], a[4])
    if a[0] == "put":
        return "put %d %d" % (a[1], a[2])
    return " ".join(map(str, a))


def random_run(rng, n):
    run, L = ["reset"], {}
    size = lambda: rng.choice([1, 2, 3, rng.randint(1, 40)])
    if n < 30:
        wide = rng.random() < 0.4       # few large elements, or many small ones
        size = lambda: rng.choice([1, 2, 3]) if wide else rng.choice([256, 300, 4097, 33000, 65537, rng.randint(1, 5000)])
        if rng.random() < 0.7:          # to start with, one copied to another
            k = rng.choice([1, 2, 3]) if wide else rng.choice([256, 300, 4097])
            z = rng.choice([128, 255, 256, 257, 1000, 40000]) if wide else rng.choice([1, 2])
            L = {1: k, 2: rng.choice([k, k + 1, 1])}
            run += ["with 1 %d %d 1" % (k, z), "put 1 %d" % (k - 1), "copy 1 2 %d" % L[2], "elemcopy 2 0", "put 2 %d" % (L[2] - 1), "get 1 0"]
    for _ in range(n):
        i = rng.randint(1, 2)
        j = 3 - i
        z = rng.choice([1, 1, 2, 3, 4, 8, 13] if n > 30 else [128, 255, 257, 1000, 40000, 70000] if wide else [1, 1, 2])
        if i not in L:
            k = size()
            if rng.random() < 0.5:
                k = rng.choice([0, k])
                run.append("new %d %d %d" % (i, k, z))
            else:
                run.append("with %d %d %d %d" % (i, k, z, rng.randint(0, 1)))
            L[i] = k
            continue
        op = rng.choice(["put"] * 4 + ["get", "elemcopy", "resize", "resize", "resize", "copy", "setlen", "setdata", "free"])
        if op in ("put", "get", "elemcopy"):
            if L[i]:
                run.append("%s %d %d" % (op, i, rng.choice([0, L[i] - 1, rng.randrange(L[i])])))
        elif op == "resize":
            L[i] = rng.choice([max(1, L[i] - 1), L[i] + 1, L[i] * 2 if 0 < L[i] < 100 else 5, size()])
            run.append("resize %d %d" % (i, L[i]))
        elif op == "copy":
            if j not in L:
                L[j] = rng.choice([0, L[i], L[i] // 2, L[i] + 3])
                run.append("copy %d %d %d" % (i, j, L[j]))
        elif op == "setlen":
            L[i] = rng.choice([0, rng.randint(0, L[i])])
            run.append("setlen %d %d" % (i, L[i]))
        elif op == "setdata":
            L[i] = size()
            run.append("setdata %d %d %d %d" % (i, L[i], z, rng.randint(0, 1)))
        elif rng.random() < 0.5:
            run.append("free %d" % i)
            del L[i]
    return run + ["free %d" % i for i in sorted(L)]


def check(c):
    c.model_check("Array", "ArrayMC.cfg")
    exe = c.build_driver("array", extra=VP_WRAP)
    inits, edges = c.graph("Array", "ArrayGraph.cfg")
    runs = [["reset"] + [line(a) for a, _, _ in b] for b in c.tours(inits, edges, maxlen=80)]
    c.drive_and_validate(exe, "ArrayTrace", "ArrayTrace.cfg", split_runs(runs, 4), "spec-behaviours")
    runs = [random_run(c.rng, 100) for _ in range(c.pick(60, 1500))]
    runs += [random_run(c.rng, 20) for _ in range(c.pick(12, 300))]
    c.drive_and_validate(exe, "ArrayTrace", "ArrayTrace.cfg", split_runs(runs, c.pick(6, 30)), "random histories")
