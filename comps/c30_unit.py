"""C30: the unit test framework."""
import os
from harness.core import split_runs, VERIF


def arg(t):
    return "x" + t.encode().hex()


def line(a):
    if a[0] == "main":
        return " ".join(["main"] + [arg(x[0]) for x in a[1]])
    if a[0] == "test":
        return "test %d %s %s" % (a[1], a[2], "".join(a[3]) or "-")
    return " ".join(str(x) for x in a)


NAMES = ["s", "t", "st", "s1", "table", "table_more", "x-y", "S"]


def prog(r, cpp):
    return "".join(r.choice("aaaaaeeefdnmq" + ("xyz" if cpp else "")) for _ in range(r.choice([0, 1, 2, 3, 5, 9]))) or "-"


def run(r):
    out, suites = ["reset"], []
    for _ in range(r.randint(3, 22)):
        k = r.random()
        if k < 0.15 and len(suites) < 6 or not suites:
            cpp = r.random() < 0.4
            suites.append((r.choice(NAMES), cpp, []))
            out.append("suite %s %d %d %d" % (suites[-1][0], r.randint(0, 1), r.randint(0, 1), cpp))
        elif k < 0.6:
            i = r.randrange(len(suites))
            if len(suites[i][2]) < 8:
                n = r.choice(NAMES)
                suites[i][2].append(n)
                p = prog(r, suites[i][1])
                out.append("test %d %s %s" % (i + 1, n, p if r.random() < 0.5 else ("a" * r.randint(1, 6))))
        elif k < 0.65:
            i = r.randrange(len(suites))
            j = r.randint(0, len(suites[i][2]))
            out.append("drop %d %d" % (i + 1, j))
            if j:
                del suites[i][2][j - 1]
            else:
                del suites[i]
        else:
            args = []
            if k > 0.75:
                for _ in range(r.randint(1, 3)):
                    s = r.choice(suites)
                    t = r.choice(s[2] or ["t"])
                    args.append(r.choice([s[0], s[0], s[0] + "." + t, s[0] + "." + t, s[0] + "." + t, "." + t, s[0] + ".", "", ".", "..", s[0] + ".." + t,
                                          s[0] + "." + t + ".", s[0] + "." + r.choice(NAMES), r.choice(NAMES), s[0][:-1] or "q", t + "." + t, "nobody",
                                          s[0] + "." + t + "." + t, s[0] + "." + t + ".x", s[0] + ".." + t + ".", s[0] + "." + t + "." + s[0]]))
                if r.random() < 0.05:
                    args.insert(r.randint(0, len(args)), r.choice(["-h", "--help", "-l", "--list"]))
            out.append(" ".join(["main"] + [arg(a) for a in args]))
            out.append("counts")
    return out


def wide_runs(r, sizes):
    out = []
    for n in sizes:
        few = lambda: r.choice(["a", "aa", "e", "a", "f", "ad", "-"])
        # many tests in one suite, many suites, many steps, many names
        out.append(["reset", "suite s 1 1 0"] + ["test 1 t%d %s" % (i, few()) for i in range(n)] +
                   ["main", "counts", "main " + " ".join(arg("s.t%d" % r.randrange(n)) for _ in range(min(n, 300))), "counts", "main " + arg("-l")])
        out.append(["reset"] + [x for i in range(n) for x in ("suite s%d 0 %d %d" % (i, i % 2, i % 2), "test %d t %s" % (i + 1, few()))] +
                   ["main", "counts", "drop 1 0", "main " + arg("s%d" % (n - 1)), "main " + arg("s%d.t" % (n - 2)), "counts"])
        out.append(["reset", "suite S 0 1 1"] + ["test 1 t%d %s" % (i, r.choice(["x", "y", "ax", "z"])) for i in range(n)] + ["main", "counts"])
        k = r.choice([n, 10 * n, 260 * n])
        nm = r.choice(["s", "S"]) * r.choice([100, 127, 255, 256, 300])
        out.append(["reset", "suite %s 0 0 0" % nm, "test 1 t %s" % ("a" * k), "test 1 u %s" % ("a" * k + "f"), "test 1 %s ae" % (nm + "x"), "main", "counts",
                    "main " + arg(nm + "." + nm + "x"), "main " + arg(nm), "counts"])
    return out


def check(c):
    c.model_check("Unit", "UnitMC.cfg")
    exe = c.build_driver("unit", extra=[os.path.join(VERIF, "drivers", "unit_cpp.cpp"), "-lstdc++"])
    inits, edges = c.graph("Unit", "UnitGraph.cfg")
    runs = [["reset"] + [line(a) for a, _, _ in t] + ["counts"] for t in c.tours(inits, edges, maxlen=12, limit=c.pick(6000, None))]
    c.drive_and_validate(exe, "UnitTrace", "UnitTrace.cfg", split_runs(runs, 8), "every call of the small model")
    c.drive_and_validate(exe, "UnitTrace", "UnitTrace.cfg", split_runs(wide_runs(c.rng, c.pick([130, 260], [127, 128, 129, 255, 256, 257, 300])), 8), "large suites")
    r = c.rng
    runs = [run(r) for _ in range(c.pick(600, 8000))]
    c.drive_and_validate(exe, "UnitTrace", "UnitTrace.cfg", split_runs(runs, c.pick(8, 40)), "random suites")
