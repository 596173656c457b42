"""C08: the incremental garbage collector."""
from harness.core import split_runs


def random_run(rng, n, marks, allocs, destroy):
    run = ["reset %d %d" % (marks, allocs)]
    ref, prot, fresh, off, nxt = {}, set(), 0, 0, 1
    alive = set()

    def usable():
        s = set(prot) | ({fresh} if fresh else set())
        todo = list(s)
        while todo:
            for y in ref[todo.pop()]:
                if y not in s:
                    s.add(y)
                    todo.append(y)
        return sorted(s)
    pfull = rng.choice([0.03, 0.1, 0.4])
    late = rng.random() < 0.5            # allocate early, then mutate and protect while partial scans go on
    for k in range(n):
        u = usable()
        x = rng.random()
        if late and k > 40 and x < 0.2:
            x = rng.choice([0.64, 0.7, 0.9, 0.9])
        if x < 0.22:
            if nxt <= 40:
                ref[nxt] = set()
                if rng.random() < 0.25:
                    run.append("protectnew %d" % nxt)
                    prot.add(nxt)
                else:
                    run.append("register %d" % nxt)
                    fresh = nxt
                nxt += 1
        elif x < 0.5 and len(u) >= 2:
            a, b = rng.choice(u), rng.choice(u)
            if fresh and rng.random() < 0.6:
                b = fresh
            if b not in ref[a] and len(ref[a]) < 4:
                ref[a].add(b)
                run.append("link %d %d" % (a, b))
        elif x < 0.62 and u:
            c = [(a, b) for a in u for b in sorted(ref[a])]
            if c:
                a, b = rng.choice(c)
                ref[a].discard(b)
                run.append("unlink %d %d" % (a, b))
        elif x < 0.68 and u:
            a = rng.choice(u)
            prot.add(a)
            run.append("protect %d" % a)
        elif x < 0.75 and prot:
            a = rng.choice(sorted(prot))
            prot.discard(a)
            run.append("unprotect %d" % a)
        elif x < 0.8 and u:
            run.append("mark %d" % rng.choice(u))
        elif x < 0.82 and u:
            a = rng.choice(u)
            # unreachable objects may refer to it as well: only objects nothing ever referred to
            if not any(a in s for k, s in ref.items() if k != a):
                prot.discard(a)
                ref[a] = set()
                if fresh:
                    fresh = 0
                run.append("unregister %d" % a)
        elif x < 0.95:
            run.append("collect %d" % (rng.random() < pfull))
            if off == 0:
                fresh = 0
        elif x < 0.975:
            if off < 3:
                off += 1
                run.append("disable")
        elif off:
            off -= 1
            if off == 0:
                fresh = 0
            run.append("enable")
    if allocs < 1 and off == 0 and rng.random() < 0.4:
        run += ["collect 0"] * (3 * (min(nxt, 41) + 1) + 8)
    if destroy:
        run.append("destroy")
    return run


def wide_run(rng, n, marks, allocs):
    """many objects: a few roots, or very many; then what nothing refers to any more"""
    run, prot, kids, up = ["reset %d %d" % (marks, allocs), "protectnew 1"], [1], {1: []}, [1]
    roots = rng.choice([0.02, 0.9])
    hub = rng.random() < 0.5
    for k in range(2, n + 1):
        if rng.random() < roots:
            run.append("protectnew %d" % k)
            prot.append(k)
        else:
            p = 1 if hub and len(kids[1]) < 390 else rng.choice(up[-30:])
            run += ["register %d" % k, "link %d %d" % (p, k)]
            kids[p].append(k)
        kids[k] = []
        up.append(k)
    run += ["collect 0"] * 3 + ["collect 1"]
    for _ in range(12):
        p = rng.choice(prot)
        if p != 1 and roots > 0.5:
            run.append("unprotect %d" % p)
            prot.remove(p)
        elif kids[1]:
            run.append("unlink 1 %d" % kids[1].pop())
    if roots > 0.5:
        for p in prot[len(prot) // 3:]:
            run.append("unprotect %d" % p)
    else:
        while kids[1]:
            run.append("unlink 1 %d" % kids[1].pop())
    return run + ["collect 0"] * 4 + ["collect 1"] * 4 + ["destroy"]


def scan_run(rng):
    """a tree of objects, then protection changes and stores in the middle of partial scans"""
    run = ["reset 1 0", "protectnew 1"]
    ref, prot = {1: set()}, {1}
    m = rng.randint(3, 12)
    for k in range(2, m + 1):
        p = rng.choice([k - 1, rng.randint(1, k - 1)])
        run.append("register %d" % k)
        run.append("link %d %d" % (p, k))
        ref[k] = set()
        ref[p].add(k)
    run += ["collect 1"] * 2

    def reach():
        s, todo = set(prot), list(prot)
        while todo:
            for y in ref[todo.pop()]:
                if y not in s:
                    s.add(y)
                    todo.append(y)
        return sorted(s)
    for _ in range(40):
        run += ["collect 0"] * rng.choice([1, 1, 2, 3, 5])
        u = reach()
        x = rng.random()
        if x < 0.35:
            a = rng.choice(u)
            run.append("protect %d" % a)
            prot.add(a)
        elif x < 0.65 and len(prot) > 1:
            a = rng.choice(sorted(prot))
            run.append("unprotect %d" % a)
            prot.discard(a)
        elif x < 0.75:
            run.append("mark %d" % rng.choice(u))
        elif x < 0.9:
            a, b = rng.choice(u), rng.choice(u)
            if b not in ref[a]:
                ref[a].add(b)
                run.append("link %d %d" % (a, b))
        else:
            c = [(a, b) for a in u for b in sorted(ref[a])]
            if c:
                a, b = rng.choice(c)
                ref[a].discard(b)
                run.append("unlink %d %d" % (a, b))
    return run + ["collect 0"] * (3 * (m + 1) + 8) + ["destroy"]


def check(c):
    c.model_check("GcImpl", "GcMC.cfg", allow=("IDisable", "IEnable"))
    c.model_check("GcImpl", "GcMC2.cfg")
    if c.thorough:
        c.model_check("GcImpl", "GcMC3.cfg", allow=("IDisable", "IEnable"))
        c.model_check("GcImpl", "GcMC4.cfg", allow=("IDisable", "IEnable"))
    exe = c.build_driver("gc")
    inits, edges = c.graph("GcImpl", "GcGraph.cfg")
    runs = [["reset 1 1"] + [" ".join(map(str, x)) for x, _, _ in b] + ["destroy"] for b in c.tours(inits, edges, maxlen=150)]
    c.drive_and_validate(exe, "GcTrace", "GcTrace2.cfg", split_runs(runs, 6), "spec-behaviours")
    runs = [random_run(c.rng, 200, c.rng.choice([0, 1, 1, 2, 3, 10]), c.rng.choice([0, 0, 0, 1, 1, 2, 7]), i % 3 == 0)
            for i in range(c.pick(100, 2000))]
    runs += [scan_run(c.rng) for _ in range(c.pick(150, 3000))]
    c.drive_and_validate(exe, "GcTrace", "GcTrace.cfg", split_runs(runs, c.pick(6, 30)), "random histories")
    runs = [[wide_run(c.rng, n, m, a)] for n, m, a in c.pick(((270, 1000, 1000), (260, 3, 40)), ((300, 1000, 1000), (300, 1, 1), (300, 7, 300), (600, 300, 2), (600, 1000, 70000)) * 2)]
    c.drive_and_validate(exe, "GcTrace", "GcTraceMany.cfg", [[x for y in s for x in y] for s in runs], "many objects", timeout=c.pick(240, 1200))
