"""C12: binary streams."""
from harness.core import split_runs, VP_WRAP

TYPES = [(1, "b"), (1, "u"), (2, "u"), (4, "u"), (8, "u"), (4, "f"), (8, "d")]


def line(a):
    if a[0] == "write":
        return "write %d %d 1" % (a[1], len(a[2]))
    if a[0] == "read":
        return "read %d %d 1" % (a[1], a[2])
    if a[0] in ("setdata", "setarray"):
        return "%s %d %d %d" % (a[0], a[1], len(a[2]), a[3])
    return " ".join(map(str, a))


def random_run(rng, n):
    run, on = ["reset"], set()
    for _ in range(n):
        i = rng.randint(1, 2)
        if i not in on:
            run.append("new %d" % i)
            on.add(i)
            continue
        op = rng.choice(["write"] * 7 + ["read"] * 8 + ["rewind"] * 2 + ["truncate", "isempty", "flip", "clone", "setdata",
                                                                        "setarray", "free"])
        if op in ("write", "read"):
            if rng.random() < 0.7:
                z, t = rng.choice(TYPES)
                run.append("%s %d 1 %d %s" % (op, i, z, t))
            else:
                run.append("%s %d %d %d" % (op, i, rng.choice([0, 1, 2, 3, 9, 30] if n > 30 else [1, 255, 257, 4000, 33000, 65537, rng.randint(1, 3000)]),
                                            rng.choice([1, 1, 2, 4])))
        elif op == "clone":
            if 3 - i not in on:
                run.append("clone %d %d" % (i, 3 - i))
                on.add(3 - i)
        elif op in ("setdata", "setarray"):
            k = rng.randint(1, 20) if n > 30 else rng.choice([255, 257, 33000, 65537, rng.randint(1, 3000)])
            run.append("%s %d %d %d" % (op, i, k, rng.randint(0, 1) if op == "setdata" else rng.randint(0, k)))
        elif op == "free":
            if rng.random() < 0.4:
                run.append("free %d" % i)
                on.discard(i)
        else:
            run.append("%s %d" % (op, i))
    return run + ["free %d" % i for i in sorted(on)]


def check(c):
    c.model_check("BStream", "BStreamMC.cfg")
    exe = c.build_driver("bstream", extra=VP_WRAP)
    inits, edges = c.graph("BStream", "BStreamGraph.cfg")
    runs = [["reset"] + [line(a) for a, _, _ in b] for b in c.tours(inits, edges, maxlen=80)]
    c.drive_and_validate(exe, "BStreamTrace", "BStreamTrace.cfg", split_runs(runs, 4), "spec-behaviours")
    runs = [random_run(c.rng, 120) for _ in range(c.pick(60, 1500))]
    runs += [random_run(c.rng, 25) for _ in range(c.pick(12, 300))]
    c.drive_and_validate(exe, "BStreamTrace", "BStreamTrace.cfg", split_runs(runs, c.pick(6, 30)), "random histories")
