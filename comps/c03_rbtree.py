"""C03: red-black trees are balanced ordered sets."""
import itertools
from harness.core import split_runs


def random_run(rng, n, m):
    run, S = ["reset"], set()
    grow = 0.5
    for i in range(n):
        if i % 40 == 0:
            grow = rng.choice([0.3, 0.5, 0.7])
        k = rng.randint(1, m)
        x = rng.random()
        if x < 0.75:
            if rng.random() < grow:
                run.append("insert %d" % k)
                S.add(k)
            elif S:
                k = rng.choice(sorted(S))
                run.append("remove %d" % k)
                S.discard(k)
        elif x < 0.8:
            run.append("find %d" % k)
        elif x < 0.85:
            run.append("nfind %d" % k)
        elif x < 0.9 and S:
            run.append("next %d" % rng.choice(sorted(S)))
        elif x < 0.94:
            run.append(rng.choice(["min", "max"]))
        elif x < 0.98:
            run.append("walk")
        elif S:
            D = rng.sample(sorted(S), rng.randint(0, min(5, len(S))))
            run.append("walkdel " + " ".join(map(str, D)))
            S -= set(D)
    return run


def perm_runs(rng, n, count):
    """insertion orders x deletion orders of n keys"""
    perms = list(itertools.permutations(range(1, n + 1)))
    out = []
    for p in (perms if len(perms) <= count else rng.sample(perms, count)):
        q = list(p)
        rng.shuffle(q)
        out.append(["reset"] + ["insert %d" % k for k in p] + ["walk"] + ["remove %d" % k for k in q])
    return out


def check(c):
    c.model_check("RBTree", "RBTreeMC.cfg")
    exe = c.build_driver("rbtree")
    inits, edges = c.graph("RBTree", "RBTreeGraph.cfg")

    def line(a):
        return ("walkdel " + " ".join(map(str, a[1]))) if a[0] == "walkdel" else " ".join(map(str, a))
    runs = [["reset"] + [line(a) for a, _, _ in b] for b in c.tours(inits, edges, maxlen=150)]
    c.drive_and_validate(exe, "RBTreeTrace", "RBTreeTrace.cfg", split_runs(runs, 4), "spec-behaviours")
    runs = [random_run(c.rng, 400, c.rng.choice([6, 10, 16, 30, 60])) for _ in range(c.pick(30, 300))]
    runs += perm_runs(c.rng, 5, 120) + perm_runs(c.rng, 7, c.pick(150, 2000))
    for m in (40, 80):       # sorted, reversed and organ-pipe insertion with full teardown
        for order in (list(range(1, m)), list(range(m, 0, -1)), [x for i in range(1, m // 2) for x in (i, m - i)]):
            runs.append(["reset"] + ["insert %d" % k for k in order] + ["walk", "min", "max"] +
                        ["remove %d" % k for k in order[::2]] + ["walkdel " + " ".join(map(str, order[1::3]))])
    c.drive_and_validate(exe, "RBTreeTrace", "RBTreeTrace.cfg", split_runs(runs, c.pick(5, 20)), "random histories")
