"""C32: handlers called when the program ends."""
import itertools
from harness.core import split_runs


def flat(h):
    return "%d:%d(%s)" % (h[0], h[1], "".join(flat(k) for k in h[2]))


def handler(r, num, deep):
    f = r.choice([0, 0, 1, 2, 3])
    if f == 3:
        return [3, -1, []]
    n = next(num)
    return [f, n, [handler(r, num, deep - 1) for _ in range(r.choice([0, 0, 0, 1, 2, 5]))] if deep else []]


def run(r):
    num = itertools.count()
    n = r.choice([0, 1, 1, 2, 3, 5, 8, 40]) if r.random() < 0.97 else 300
    late = r.choice([0, 0, 0.1, 0.5]) if n < 60 else 0.1
    return ["reset"] + [("late " if r.random() < late else "reg ") + flat(handler(r, num, 3)) for _ in range(n)] + ["exit %d %d" % (r.choice([0, 1, 1, 1, 2, 2]), r.choice([0, 1, 3, 42]))]


def check(c):
    c.model_check("Exit", "ExitMC.cfg")
    exe = c.build_driver("atexit")
    inits, edges = c.graph("Exit", "ExitGraph.cfg")
    runs = []
    for t in c.tours(inits, edges):
        t = [a for a, _, _ in t]
        if t[-1][0] != "exit":
            t.append(["exit", 1])
        runs.append(["reset"] + ["%s %s" % (a[0], flat(a[1])) if a[0] != "exit" else "exit %d 0" % a[1] for a in t])
    c.drive_and_validate(exe, "ExitTrace", "ExitTrace.cfg", split_runs(runs, 8), "every call of the small model")
    r = c.rng
    runs = [run(r) for _ in range(c.pick(500, 8000))]
    c.drive_and_validate(exe, "ExitTrace", "ExitTrace.cfg", split_runs(runs, c.pick(8, 32)), "random programs")
