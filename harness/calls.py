"""Components that are calls without state: an operation and its arguments on a line."""
from harness.core import split_runs


def word(a):
    if a is None:
        return "-"
    return "x" + bytes(a).hex() if isinstance(a, (list, bytes)) else str(a)


def line(a):
    return " ".join([a[0]] + [word(x) for x in a[1:]])


def small_model(c, module, exe, n=8, none=False):
    """every call of the small model, made in the real code"""
    _, edges = c.graph(module, module + "Graph.cfg")
    calls = [a for v in edges.values() for a, _ in v]
    if none:                                    # <<0>> stands for no string
        calls = [[None if x == [0] else x for x in a] for a in calls]
    c.cov["spec_behaviours_replayed"] += len(calls)
    c.cov["transitions_replayed"] += len(calls)
    c.rng.shuffle(calls)
    judge(c, module, exe, calls, n, "every call of the small model")


def judge(c, module, exe, calls, n, tag, **kw):
    c.drive_and_validate(exe, module + "Trace", module + "Trace.cfg", split_runs([[line(a)] for a in calls], n), tag, **kw)
