"""C04: intrusive lists, stacks and queues."""
from harness.core import split_runs


def line(a):
    return ("eachdel %d %s" % (a[1], " ".join(map(str, a[2])))) if a[0] == "eachdel" else " ".join(map(str, a))


def random_run(rng, n, m):
    run, L = ["reset"], {1: [], 2: []}
    for _ in range(n):
        h = rng.randint(1, 2)
        free = [x for x in range(1, m + 1) if x not in L[1] and x not in L[2]]
        op = rng.choice(["add", "addtail", "push", "enqueue", "add", "addtail", "remove", "pop", "dequeue", "speek",
                         "qpeek", "empty", "join", "eachdel"] + ["addtail", "add"] * (8 if m > 100 else 0))
        if op in ("add", "push", "enqueue", "addtail"):
            if not free:
                continue
            x = rng.choice(free)
            L[h] = L[h] + [x] if op == "addtail" else [x] + L[h]
            run.append("%s %d %d" % (op, h, x))
        elif op == "remove":
            if L[h]:
                x = rng.choice(L[h])
                L[h].remove(x)
                run.append("remove %d %d" % (h, x))
        elif op == "pop" or op == "dequeue":
            run.append("%s %d" % (op, h))
            if L[h]:
                L[h].pop(0 if op == "pop" else -1)
        elif op in ("speek", "qpeek"):
            if L[h]:
                run.append("%s %d" % (op, h))
        elif op == "empty":
            run.append("empty %d" % h)
        elif op == "join":
            if rng.random() < 0.3:
                L[h], L[3 - h] = L[3 - h] + L[h], []
                run.append("join %d %d" % (h, 3 - h))
        elif rng.random() < 0.4:
            D = rng.sample(range(1, m + 1), rng.randint(0, m // 2))
            L[h] = [x for x in L[h] if x not in D]
            run.append("eachdel %d %s" % (h, " ".join(map(str, D))))
    return run


def check(c):
    c.model_check("Lists", "ListsMC.cfg")
    exe = c.build_driver("lists")
    inits, edges = c.graph("Lists", "ListsGraph.cfg")
    runs = [["reset"] + [line(a) for a, _, _ in b] for b in c.tours(inits, edges, maxlen=150)]
    c.drive_and_validate(exe, "ListsTrace", "ListsTrace.cfg", split_runs(runs, 4), "spec-behaviours")
    runs = [random_run(c.rng, 200, c.rng.choice([3, 8, 20])) for _ in range(c.pick(60, 600))]
    runs += [random_run(c.rng, 500, 600) for _ in range(c.pick(4, 60))]
    c.drive_and_validate(exe, "ListsTrace", "ListsTrace.cfg", split_runs(runs, c.pick(8, 16)), "random histories")
