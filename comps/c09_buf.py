"""C09: byte buffers."""
from harness.core import split_runs, VP_WRAP

SCALE = {0: 0, 1: 600, 2: 1300}


def line(a):
    op = a[0]
    if op == "add":
        return "add %d %d" % (a[1], SCALE[len(a[2])])
    if op == "iov":
        return "iov %d %s" % (a[1], " ".join(str(SCALE[len(v)]) for v in a[2]))
    if op in ("drain", "remove", "reserve", "expand"):
        return "%s %d %d" % (op, a[1], SCALE[a[2]])
    return " ".join(map(str, a))


def random_run(rng, n):
    run, on = ["reset"], set()
    k = rng.random()
    if n < 30:
        size = lambda: rng.choice([255, 257, 4096, 20000, 32767, 32769, 65535, 65537, rng.randint(1, 70000)])
    elif k < 0.5:
        size = lambda: rng.choice([0, 1, 2, 3, rng.randint(1, 60)])
    else:
        size = lambda: rng.choice([0, 1, 1023, 1024, 1025, 500, 700, rng.randint(1, 2500)])
    for _ in range(n):
        i = rng.randint(1, 2)
        if i not in on:
            run.append("new %d" % i)
            on.add(i)
            continue
        op = rng.choice(["add"] * 5 + ["remove"] * 4 + ["drain"] * 3 + ["iov", "addbuf", "reserve", "expand", "nomem"])
        if op == "nomem":
            run.append("nomem")
        elif op == "addbuf":
            run.append("addbuf %d %d" % (i, 3 - i))
        elif op == "iov":
            run.append("iov %d %s" % (i, " ".join(str(size() // 3) for _ in range(rng.randint(1, 5)))))
        elif op == "drain":
            run.append("drain %d %d" % (i, rng.choice([size(), size(), size(), -1])))
        else:
            run.append("%s %d %d" % (op, i, size()))
        if rng.random() < 0.02:
            run.append("free %d" % i)
            on.discard(i)
    return run + ["free 1", "free 2"]


def check(c):
    c.model_check("Buf", "BufMC.cfg")
    exe = c.build_driver("buf", extra=VP_WRAP)
    inits, edges = c.graph("Buf", "BufGraph.cfg")
    runs = [["reset"] + [line(a) for a, _, _ in b] for b in c.tours(inits, edges, maxlen=60)]
    c.drive_and_validate(exe, "BufTrace", "BufTrace.cfg", split_runs(runs, 6), "spec-behaviours")
    runs = [random_run(c.rng, 80) for _ in range(c.pick(50, 1000))]
    runs += [random_run(c.rng, 20) for _ in range(c.pick(12, 300))]
    c.drive_and_validate(exe, "BufTrace", "BufTrace.cfg", split_runs(runs, c.pick(6, 30)), "random histories")
