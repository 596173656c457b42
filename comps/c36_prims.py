"""C36: the thread primitives: the callbacks they go to, and how they behave on pthreads."""
from harness.core import split_runs


def command(r, a, nt, nm):
    t = lambda: r.randint(1, nt)
    m, k = r.randint(1, nm), r.randint(1, nm)
    return {"start": "start %d %d" % (t(), t()), "lock": "lock %d %d" % (t(), m), "try": "try %d %d" % (t(), m), "unlock": "unlock %d %d" % (t(), m),
            "wait": "wait %d %d %d %d" % (t(), k, m, r.randint(0, 1)), "timed": "timed %d %d %d %d" % (t(), k, m, r.choice([0, 1, 200, 3000])),
            "signal": "signal %d %d %d" % (t(), k, r.randint(0, 1)), "end": "end %d %d %d" % (t(), r.choice([0, 1, 77, 2147483647]), r.randint(0, 1)),
            "kill": "kill %d %d" % (t(), t()), "join": "join %d %d" % (t(), t()), "detach": "detach %d %d" % (t(), t()), "id": "id %d" % t()}[a]


def run(r):
    nt, nm = r.randint(2, 6), r.randint(1, 4)
    out = ["reset"] + ["start 1 %d" % k for k in range(2, nt + 1)]
    bias = r.choice([["lock", "unlock", "wait", "signal"], ["start", "end", "join", "kill", "detach"], []])
    ops = ["start", "lock", "try", "unlock", "unlock", "wait", "wait", "timed", "signal", "end", "kill", "join", "detach", "id"] + bias * 4
    for _ in range(r.choice([10, 40, 80])):
        op = r.choice(ops)
        if op == "wait":                            # a run up to it
            t, m, k = r.randint(1, nt), r.randint(1, nm), r.randint(1, nm)
            out += ["lock %d %d" % (t, m), "wait %d %d %d %d" % (t, k, m, r.randint(0, 1))]
        elif op == "timed":
            t, m, k = r.randint(1, nt), r.randint(1, nm), r.randint(1, nm)
            out += ["try %d %d" % (t, m), "timed %d %d %d %d" % (t, k, m, r.choice([0, 1, 200, 3000]))]
        elif op == "unlock" and r.random() < 0.7:   # whoever has it
            m = r.randint(1, nm)
            out += ["unlock %d %d" % (t, m) for t in range(1, nt + 1)]
        else:
            out.append(command(r, op, nt, nm))
    return out


def word(x):
    return "-" if x == [] else ",".join(str(v) for v in x) if isinstance(x, list) else str(x)


FNS = {"alloc": 1, "free": 2, "lock": 2, "unlock": 2, "calloc": 1, "cfree": 1, "signal": 2, "wait": 3, "start": 4, "end": 1, "kill": 1, "id": 0, "join": 2, "detach": 1}
POOL = ["iloop", "oloop", "init", "iw", "ow", "fin"]


def prim(a):
    """a line of the driver for a call of the specification"""
    if a[0] == "setpool":
        cb = a[1]
        return "setpool " + (word([]) if not cb else ",".join("%s:%d" % kv for kv in sorted(cb.items())))
    return " ".join([a[0]] + [word(x) for x in a[1:]])


def prims_run(r):
    out = ["reset"]
    for _ in range(r.randint(5, 40)):
        k = r.random()
        fam = r.choice([("setlock", ["alloc", "free", "lock", "unlock"]), ("setcond", ["calloc", "cfree", "signal", "wait"]), ("setcntrl", ["start", "end", "kill", "id", "join", "detach"])])
        if k < 0.3:
            out.append(prim([fam[0], r.randint(0, 3), [f for f in fam[1] if r.random() < r.choice([0, 0, 0.3])]]))
        elif k < 0.7:
            f = r.choice(sorted(FNS))
            out.append(prim(["call", f, [r.choice([0, 1, 2, 9, 255, 2147483647]) for _ in range(FNS[f])], r.choice([0, 1, -1, 77, 2147483647])]))
        elif k < 0.85:
            out.append(prim(["setpool", r.choice([{}] + [{f: r.randint(1, 3) for f in POOL if r.random() < (0.15 if f[1:] == "loop" else 0.5)} for _ in range(4)])]))
        elif k < 0.88:
            out.append(prim(["disable", r.choice(POOL[:2])]))
        else:
            out.append(prim(["pool", [r.randint(1, 99) for _ in range(r.randint(0, 6))]]))
    return out


def check(c):
    c.model_check("Prims", "PrimsMC.cfg")
    c.model_check("Prims", "PrimsPoolMC.cfg")
    c.model_check("PThreads", c.pick("PThreadsMC.cfg", "PThreadsMCBig.cfg"), timeout=1500)
    exe = c.build_driver("prims")
    runs = []
    for g in ("PrimsGraph.cfg", "PrimsPoolGraph.cfg"):
        inits, edges = c.graph("Prims", g)
        runs += [["reset"] + [prim(a) for a, _, _ in b] for b in c.tours(inits, edges, maxlen=100)]
    c.drive_and_validate(exe, "PrimsTrace", "PrimsTrace.cfg", split_runs(runs, 4), "every call of the small models of callbacks")
    c.drive_and_validate(exe, "PrimsTrace", "PrimsTrace.cfg", split_runs([prims_run(c.rng) for _ in range(c.pick(300, 6000))], c.pick(4, 16)), "random callbacks")
    exe = c.build_driver("pthreads")
    inits, edges = c.graph("PThreads", "PThreadsGraph.cfg")
    runs = [["reset"] + [" ".join(str(x) for x in a) + (" 300" if a[0] == "timed" else "") for a, _, _ in b] for b in c.tours(inits, edges, maxlen=60)]
    c.rng.shuffle(runs)
    c.drive_and_validate(exe, "PThreadsTrace", "PThreadsTrace.cfg", split_runs(runs[:c.pick(120, len(runs))], c.pick(6, 24)), "the small model of threads")
    runs = [run(c.rng) for _ in range(c.pick(150, 4000))]
    runs.append(["reset"] + ["lock 1 1", "timed 1 1 1 999999"] * c.pick(2, 6))
    c.drive_and_validate(exe, "PThreadsTrace", "PThreadsTrace.cfg", split_runs(runs, c.pick(6, 24)), "random threads")
