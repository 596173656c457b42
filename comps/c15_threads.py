"""C15: thread pools, under schedules taken from the specification, at random, and the real ones."""
from harness.core import split_runs


def runs_of(c, n, no, K, cfg):
    """Every transition of the algorithm's model as a schedule: the thread that moves, step by step."""
    inits, edges = c.graph("ThreadPoolImpl", cfg)
    runs = []
    for b in c.tours(inits, edges, maxlen=80):
        runs.append(["pool %d 1 %d 1 1 0 0 0" % (n, 1 if no else 0), "sched " + " ".join(str(a[1]) for a, _, _ in b), "start"] +
                    ["ins %d" % (k + 1) for k in range(K)] + ["kill"])
    return runs


def random_run(rng, real):
    n = rng.choice([1, 1, 2, 2, 3, 4])
    il, ol = rng.random() < 0.9, rng.random() < 0.75
    run = ["sched r%d" % rng.randrange(1 << 30),
           "pool %d %d %d %d %d %d %d %d" % (n, il, ol, rng.random() < 0.7, rng.random() < 0.7, rng.random() < 0.3, rng.random() < 0.3, real)]
    ids = list(range(1, 40))
    rng.shuffle(ids)
    oids = list(range(2001, 2020))
    started = False

    def insert():
        if rng.random() < 0.15:
            return "oins %d" % oids.pop()
        return "ins %d" % ids.pop()
    for _ in range(rng.choice([0, 0, 1, 2, 3])):        # items whose callback takes long
        x = rng.randint(1, 39)
        run.append("hold %d" % rng.choice([x, x, x + 1000, rng.randint(2001, 2019)]))
    for _ in range(rng.randint(0, 3)):
        run.append(insert())
    run.append("start")
    if rng.random() < 0.4:
        for _ in range(rng.randint(1, 2)):
            run.append("prod " + " ".join(str(ids.pop()) for _ in range(rng.randint(1, 4))))
    for _ in range(rng.randint(0, 8)):
        run.append("get" if not ol and rng.random() < 0.5 else insert())
        if rng.random() < 0.15:
            run.append("settle")
    if rng.random() < 0.4:
        run.append("settle")
    run.append("free")
    run += ["wait", "kill"]
    if not ol:
        run += ["get"] * rng.randint(0, 6)
    run.append("pipes")
    return run


def check(c):
    c.model_check("ThreadPoolImpl", c.pick("ThreadPoolMC.cfg", "ThreadPoolMCBig.cfg"), timeout=3000)
    c.model_check("ThreadPoolImpl", "ThreadPoolLive.cfg")
    exe = c.build_driver("threads")
    runs = runs_of(c, 1, 1, 2, "ThreadPoolGraph.cfg") + runs_of(c, 2, 0, 2, "ThreadPoolGraph2.cfg")
    c.drive_and_validate(exe, "ThreadPoolTrace", "ThreadPoolTrace.cfg", split_runs(runs, 6), "spec-schedules")
    runs = [random_run(c.rng, 0) for _ in range(c.pick(1200, 20000))]
    c.drive_and_validate(exe, "ThreadPoolTrace", "ThreadPoolTrace.cfg", split_runs(runs, c.pick(6, 25)), "random schedules")
    runs = [random_run(c.rng, 1) for _ in range(c.pick(150, 3000))] + [["nopipe %d" % x] for x in (0, 1)] + [["timed %d" % t] for t in (1, 2000, 30000)]
    c.drive_and_validate(exe, "ThreadPoolTrace", "ThreadPoolTrace.cfg", split_runs(runs, c.pick(3, 12)), "pthreads")
