"""C05: linked lists: reversal, sorting, merging, splitting."""
from harness.core import split_runs


def random_run(rng, n, ge):
    """keeps a Python shadow only to respect preconditions (lengths, sortedness)"""
    run, L = ["reset %d" % ge], {1: [], 2: []}
    key = lambda v: v // 10
    nk = rng.choice([2, 5, 40]) if n < 300 else rng.choice([40, 3000])
    for _ in range(n):
        h = rng.randint(1, 2)
        o = 3 - h
        op = rng.choice(["push"] * (8 if n < 300 else 60) + ["pop", "move", "nth", "nthtail", "reverse", "nreverse", "sort", "merge", "split",
                                        "free"])
        s = sorted
        if op == "push":
            v = 10 * rng.randint(1, nk) + rng.randint(0, 9)
            L[h].insert(0, v)
            run.append("push %d %d" % (h, v))
        elif op == "pop":
            L[h][:1] = []
            run.append("pop %d" % h)
        elif op == "move":
            if L[h]:
                L[o].insert(0, L[h].pop(0))
            run.append("move %d %d" % (h, o))
        elif op in ("nth", "nthtail"):
            if L[h]:
                run.append("%s %d %d" % (op, h, rng.randrange(len(L[h]))))
        elif op == "reverse":
            if len(L[h]) < (60 if n < 300 else 3000):
                L[o] = L[h][::-1]
                run.append("reverse %d %d" % (h, o))
        elif op == "nreverse":
            L[h].reverse()
            run.append("nreverse %d" % h)
        elif op == "sort":
            L[h].sort(key=key)        # order among equal keys may differ in the real list
            run.append("sort %d" % h)
        elif op == "merge":
            run.append("sort %d" % h)
            run.append("sort %d" % o)
            run.append("merge %d %d" % (h, o))
            L[h], L[o] = sorted(L[h] + L[o], key=key), []
        elif op == "split":
            if len(L[h]) >= 2:
                if L[o]:
                    run.append("free %d" % o)
                k = (len(L[h]) + 1) // 2
                L[h], L[o] = L[h][:k], L[h][k:]
                run.append("split %d %d" % (h, o))
        elif rng.random() < 0.3:
            L[h] = []
            run.append("free %d" % h)
    return run


def check(c):
    c.model_check("LList", "LListMC.cfg")
    exe = c.build_driver("llist")
    inits, edges = c.graph("LList", "LListGraph.cfg")
    runs = []
    # sort and merge may break ties either way, so a behaviour may leave the model's path there; each behaviour is
    # still a legal call sequence as long as preconditions hold: cut it at the first tie
    for i, b in enumerate(c.tours(inits, edges, maxlen=40)):
        run = ["reset %d" % (i % 2)]
        for a, f, t in b:
            run.append(" ".join(map(str, a)))
        runs.append(run)
    c.drive_and_validate(exe, "LListTrace", "LListTrace.cfg", split_runs(runs, 4), "spec-behaviours")
    runs = [random_run(c.rng, 120, i % 2) for i in range(c.pick(60, 800))]
    runs += [random_run(c.rng, 800, i % 2) for i in range(c.pick(4, 60))]
    c.drive_and_validate(exe, "LListTrace", "LListTrace.cfg", split_runs(runs, c.pick(8, 16)), "random histories")
