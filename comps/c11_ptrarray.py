"""C11: arrays of pointers."""
from harness.core import split_runs, VP_WRAP


def line(a):
    return " ".join(str(int(x)) if not isinstance(x, str) else x for x in a)


def random_run(rng, n):
    run, L = ["reset"], {}
    nv = rng.choice([3, 12, 200])
    most = 200
    if n < 100:             # arrays that soon hold very many
        most = rng.choice([600, 3000, 40000, 70000])
        run, L = run + ["new 1 %d" % rng.randint(0, 1)] + ["add 1 %d" % rng.randint(1, nv) for _ in range(18)], {1: 18}
        while L[1] * 2 < most:
            run.append("cat 1 1")
            L[1] *= 2
    for _ in range(n):
        i = rng.randint(1, 2)
        if i not in L:
            run.append("new %d %d" % (i, rng.randint(0, 1)))
            L[i] = 0
            continue
        op = rng.choice(["add"] * 12 + ["del"] * 2 + ["cat", "resize", "move", "move", "get", "get", "copyout", "free"])
        k = lambda: rng.choice([-2, -1, 0, L[i] - 1, L[i], L[i] + 1, rng.randint(0, L[i] + 1)])
        if op in ("add", "del"):
            run.append("%s %d %d" % (op, i, rng.choice([0] + [rng.randint(1, nv)] * 9)))
            L[i] += op == "add"
        elif op == "cat":
            j = rng.choice([i, 3 - i])
            if j in L and L[i] + L[j] < most:
                run.append("cat %d %d" % (i, j))
                L[i] += L[j]
        elif op == "resize":
            run.append("resize %d %d" % (i, rng.choice([-1, -40, 0, 1, 2, 50])))
        elif op == "move":
            run.append("move %d %d %d" % (i, k(), k()))
        elif op == "get":
            run.append("get %d %d" % (i, k()))
        elif op == "copyout":
            run.append("copyout %d" % i)
        elif rng.random() < 0.3:
            run.append("free %d %d" % (i, rng.randint(0, 1)))
            del L[i]
    return run + ["free %d %d" % (i, rng.randint(0, 1)) for i in sorted(L)]


def check(c):
    c.model_check("PtrArray", "PtrArrayMC.cfg")
    exe = c.build_driver("ptrarray", extra=VP_WRAP)
    inits, edges = c.graph("PtrArray", "PtrArrayGraph.cfg")
    runs = [["reset"] + [line(a) for a, _, _ in b] for b in c.tours(inits, edges, maxlen=80)]
    c.drive_and_validate(exe, "PtrArrayTrace", "PtrArrayTrace.cfg", split_runs(runs, 4), "spec-behaviours")
    runs = [random_run(c.rng, 150) for _ in range(c.pick(60, 1500))]
    runs += [random_run(c.rng, 15) for _ in range(c.pick(12, 300))]
    c.drive_and_validate(exe, "PtrArrayTrace", "PtrArrayTrace.cfg", split_runs(runs, c.pick(6, 30)), "random histories")
