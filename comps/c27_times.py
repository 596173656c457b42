"""C27: arithmetic on times and timing."""
from harness.core import split_runs


def dec(t):
    n = int.from_bytes(bytes(t[0][1:]), "big")
    return "%d %d" % (-n if t[0][0] else n, t[1])


def line(a):
    out = [a[0]]
    for x in a[1:]:
        out.append(str(x) if isinstance(x, int) else "x" + bytes(x).hex() if a[0] == "print" else dec(x))
    return " ".join(out)


def micros(r):
    return r.choice([0, 0, 1, 2, 499999, 500000, 500001, 999998, 999999, r.randint(0, 999999), r.randint(0, 999999)])


def secs(r):
    k = r.random()
    v = r.choice([0, 0, 1, 2, 3, 1000, (1 << 31) - 1, 1 << 31, 1 << 32]) if k < 0.5 else r.getrandbits(r.randint(1, 61))
    return -v if r.random() < 0.3 else v


def call(r):
    op = r.choice(["add", "sub", "diff", "cmp", "cmp", "copy", "elapsed", "print", "time", "time", "calibrate"])
    s, u = secs(r), micros(r)
    if op in ("add", "sub", "diff", "cmp"):
        t, v = (s, micros(r)) if r.random() < 0.3 else (s + r.choice([-1, 1]), micros(r)) if r.random() < 0.3 else (secs(r), micros(r))
        if r.random() < 0.15:
            t, v = s, u
        if op == "cmp":
            return "cmp %d %d %d %d" % (s, u, t, v)
        al = r.choice([0, 0, 1, 2, 3])
        if al == 3:
            t, v = s, u
        return "%s %d %d %d %d %d" % (op, s, u, t, v, al)
    if op == "copy":
        return "copy %d %d" % (s, u)
    if op == "elapsed":
        return "elapsed %d %d %d %d" % (r.choice([-1, 0, r.randint(-50000, 50000)]), r.randint(0, 63), r.choice([-1, 0, r.randint(-50000, 50000)]), r.randint(0, 63))
    if op == "print":
        name = bytes(r.choice(b"abc %d_") for _ in range(r.randint(0, 60)))
        return "print %d x%s %d %d" % (r.choice([0, 1, 2, 100, r.randint(0, 10 ** 6)]), name.hex(), 25 * r.randint(0, 4000), 25 * r.randint(0, 4000))
    small = lambda: "%d %d" % (r.choice([0, 0, 0, 1, r.randint(0, 10 ** 5)]), micros(r))
    cost = lambda: "0 %d" % r.choice([0, 1, 5, 100, 999999, r.randint(0, 999999)])
    if op == "calibrate":
        return "calibrate %s %s" % (cost(), cost())
    return "time %d %s %s %s %s" % (r.choice([0, 1, 2, 3, 10, r.randint(0, 60), r.choice([127, 128, 255, 256, 300]) if r.random() < 0.1 else 4]), small(), small(), cost(), cost()) + r.choice(["", " fn"])


def check(c):
    c.model_check("Times", "TimesMC.cfg")
    exe = c.build_driver("times", extra=["-Wl,--wrap=getrusage"])
    inits, edges = c.graph("Times", "TimesGraph.cfg")
    runs = [["calibrate 0 0 0 0"] + [line(a) for a, _, _ in t] for t in c.tours(inits, edges)]
    c.drive_and_validate(exe, "TimesTrace", "TimesTrace.cfg", split_runs(runs, 8), "every call of the small model")
    r = c.rng
    runs = [[call(r) for _ in range(c.pick(600, 2500))] for _ in range(c.pick(6, 30))]
    c.drive_and_validate(exe, "TimesTrace", "TimesTrace.cfg", runs, "random calls")
