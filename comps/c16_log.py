"""C16: logging."""
from harness.core import split_runs, VP_WRAP

WRAP = VP_WRAP + ["-Wl,--wrap=" + f for f in ("gethostname", "getpid", "time", "vsyslog", "__vsyslog_chk", "openlog", "closelog")]


def hx(s):
    return "x" + (bytes(s) if not isinstance(s, str) else s.encode("latin-1")).hex()


def d(t):
    return "-" if t == [0] else hx(t)


def line(a, rng):
    op = a[0]
    if op == "open":
        return "open %d %d %d %d" % (a[1], a[2], a[3], a[4])
    if op == "print":
        return "print %d %d %d %d %s" % (a[1], a[2], a[3], rng.randint(0, 3), hx(a[4]))
    if op == "strerror":
        return "strerror %d %d %d %d %d %s" % (a[1], a[2], a[3], a[4], rng.randint(0, 1), hx(a[5]))
    if op == "setdbg":
        return "setdbg %d %s %d %s" % (a[1], d(a[2]["f"]), a[2]["l"], d(a[2]["n"]))
    return " ".join(map(str, a))


RESET = "reset %s %s 4711 1000000000" % (hx("host.example"), hx("prog"))


def fix(a, nh):
    """The model's logger made by default has the number after the user's; the driver's is 5."""
    a = list(a)
    if a[0] in ("setopts", "setlevel", "get", "logger", "close", "print", "strerror") and a[1] == nh + 1:
        a[1] = 5
    return a


def text(rng, n):
    return "".join(rng.choice("abc %sd\\n.:") for _ in range(n))


def random_run(rng, quick):
    r = ["reset %s %s %d %d" % (hx(rng.choice(["h", "host.example.org", "", "a%sb", "x" * 60, "100%n.d", "."])),
                                hx(rng.choice(["prog", "p", "./a%s%n", "x y", "q" * 200])), rng.choice([1, 77, 4711, 2 ** 22]),
                                rng.choice([0, 1000000000, 1234567890, 1700000000]))]
    used = {}
    for _ in range(rng.randint(5, 40)):
        k = rng.random()
        h = rng.choice([0, 0, 1, 2, 3, 4, 5])
        v = rng.randint(0, 8)
        if k < 0.13:
            h = rng.randint(1, 4)
            free = [x for x in (1, 2) if x not in used.values() or used.get(h) == x]
            if h in used:
                continue
            c = rng.random()
            if c < 0.6 and free:
                used[h] = rng.choice(free)
                r.append("open %d %d %d %d" % (h, used[h], rng.random() < 0.5, rng.randint(0, 31)))
            elif c < 0.8:
                used[h] = 0
                r.append("stderr %d %d" % (h, rng.randint(0, 31)))
            else:
                used[h] = 3
                r.append("syslog %d" % h)
        elif k < 0.2:
            h = rng.choice(list(used) + [5])
            used.pop(h, None)
            r.append("close %d" % h)
        elif k < 0.28:
            r.append("setopts %d %d" % (h, rng.randint(0, 31)))
        elif k < 0.34:
            r.append("setlevel %d %d" % (h, v))
        elif k < 0.38:
            r.append("get %d" % h)
        elif k < 0.46:
            r.append("logger %d" % h)
        elif k < 0.72:
            r.append("print %d %d %d %d %s" % (h, rng.random() < 0.3, v, rng.randint(0, 3),
                                               hx(text(rng, rng.choice([0, 1, 5, 20, 80, rng.choice([255, 256, 300, 1100, 4097]) if rng.random() < 0.2 else 3])))))
        elif k < 0.8:
            r.append("strerror %d %d %d %d %d %s" % (h, rng.random() < 0.3, v, rng.choice([2, 13, 9999, -1]), rng.randint(0, 1), hx(text(rng, rng.choice([0, 1, 9, 120])))))
        elif k < 0.9:
            r.append("setdbg %d %s %d %s" % (rng.random() < 0.4, rng.choice(["-", hx("f.c"), hx("a%sb/%n.c"), hx("z" * 90)]),
                                             rng.choice([-1, 0, 1, 99, 2147483647]), rng.choice(["-", hx("fn"), hx("op%")])))
        elif k < 0.95:
            r.append("getdbg %d" % (rng.random() < 0.4))
        elif k < 0.97:
            r.append("refused")
        else:
            f = [x for x in used if used[x] in (1, 2)]
            if f:
                r.append("many %d %d %d %d" % (rng.choice(f), rng.randint(2, 6), rng.randint(1, 9), v))
    return r


def place_run(rng):
    """A place in the source noted, one call that may be filtered, then what is left of it."""
    r = [RESET, "open 1 1 0 %d" % rng.randint(0, 31), "logger 1"]
    for _ in range(12):
        t, v = rng.randint(0, 1), rng.randint(0, 8)
        r += ["setlevel 1 %d" % v, "setdbg %d %s %d %s" % (t, hx("f.c"), rng.randint(0, 9), hx("fn"))]
        w = max(0, v + rng.choice([-1, 0, 1, 1, 2]))
        if rng.random() < 0.7:
            r.append("print %d %d %d %d %s" % (rng.randint(0, 1), t, w, rng.randint(0, 3), hx("m")))
        else:
            r.append("strerror %d %d %d 2 %d %s" % (rng.randint(0, 1), t, w, rng.randint(0, 1), hx("m")))
        r += ["getdbg %d" % t, "getdbg %d" % (1 - t)]
    return r


def check(c):
    c.model_check("Log", c.pick("LogMC.cfg", "LogMCBig.cfg"), allow=("ToStderr", "ToSyslog"))
    exe = c.build_driver("log", extra=WRAP)
    inits, edges = c.graph("Log", "LogGraph.cfg")
    runs = [[RESET] + [line(fix(a, 1), c.rng) for a, _, _ in b] for b in c.tours(inits, edges, maxlen=200)]
    c.drive_and_validate(exe, "LogTrace", "LogTrace.cfg", split_runs(runs, 6), "spec-behaviours")
    runs = [random_run(c.rng, True) for _ in range(c.pick(250, 6000))]
    runs += [place_run(c.rng) for _ in range(c.pick(40, 400))]
    for n in c.pick([9000, 70000], [9000, 20000, 33000, 66000, 70000] * 4):
        t = hx(text(c.rng, n))
        runs.append([RESET, "open 1 1 0 31", "syslog 2"] + ["%s 0 %s" % (p, t) for p in ("print 1 0 0", "print 2 0 0", "strerror 1 0 1 2", "print 0 1 2")])
    runs += [[RESET, "open 1 1 0 %d" % c.rng.randint(0, 31), "many 1 6 %d 0" % n] for n in c.pick([60], [60, 300])]
    c.drive_and_validate(exe, "LogTrace", "LogTrace.cfg", split_runs(runs, c.pick(4, 24)), "random histories")
