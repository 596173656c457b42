"""C14: command line options."""
import re

from harness.core import split_runs


def hx(s):
    return "x" + s.encode("latin-1").hex()


def define(defs):
    return "define " + " ".join("%s:%s:%s:%d" % (hx(s), hx(l), k, h) for s, l, k, h in defs)


MODEL = [("q", "", "flag", 1), ("l", "lo", "long", 1), ("7", "", "flag", 1), ("", "st", "string", 1), ("b", "bo", "bool", 1)]
KINDS = ["flag", "flag", "long", "intmax", "bool", "string", "array", "null", "next"]


def random_defs(rng):
    n = rng.randint(1, 9)
    ss = rng.sample("abcdXYZ0159xyz", n)
    ll = rng.sample(["a", "all", "long", "long-name", "longer", "n", "name", "x1", "verbose", "v", "lo", "no", "all2"], n)
    D = []
    for i in range(n):
        s, l = ss[i], ll[i]
        k = rng.random()
        if k < 0.2:
            s = ""
        elif k < 0.4:
            l = ""
        if l == s:      # "-v" written for "--v": not specified
            l = ""
        D.append((s, l, rng.choice(KINDS), 1))
    if rng.random() < 0.06:
        i = rng.randrange(n)
        s, l, k, h = D[i]
        D[i] = rng.choice([("", "", k, 1), (s, l, k, 0), ("%", l, k, 1), (D[0][0] or "a", l, k, 1), (s, D[-1][1] or "all", k, 1)])
    return D


def num(rng):
    return rng.choice(["0", "7", "-12", "+5", "0x1f", "017", "12x", "", "abc", "9223372036854775807", "-9223372036854775808",
                       "9223372036854775808", "99999999999999999999", "1=2", str(rng.randint(-10 ** 9, 10 ** 9))][1:] or "1")


def value(rng, k):
    if rng.random() < 0.12:
        k = rng.choice(["long", "bool", "string"])
    if k in ("long", "intmax"):
        return num(rng)
    if k == "bool":
        return rng.choice(["t", "T", "y", "f", "N", "n", "true", "YES", "no", "False", "x", "maybe", "1", "yess"])
    return rng.choice(["hello", "a=b", "=", "-x", "--all", "a b", "q", "9", "xyz"])


def random_argv(rng, D):
    A = []
    lopts = {l for _, l, _, _ in D}
    for _ in range(rng.randint(0, 7)):
        d = rng.choice(D)
        k = rng.random()
        val = k and d[2] not in ("flag", "null")
        if k < 0.04:
            A.append(rng.choice(["--nope", "-%", "-", "--", "--nope=1", "--=x", "-?q"]))
        elif k < 0.10:
            A.append(rng.choice(["command", "x", "", "a-b"]))
        elif d[1] and k < 0.5:
            if not val or rng.random() < 0.5:
                A.append("--" + d[1])
                if val and rng.random() < 0.95:
                    A.append(value(rng, d[2]))
            else:
                A.append("--%s=%s" % (d[1], value(rng, d[2])))
        elif d[0]:
            g = "-" + "".join(rng.choice([x[0] for x in D if x[0] and x[2] in ("flag", "null")] or [""]) for _ in
                              range(rng.choice([0, 0, 1, 2]))) + d[0]
            if rng.random() < 0.05:     # an unknown letter somewhere in the group
                j = rng.randint(1, len(g))
                g = g[:j] + rng.choice("%?wuW") + g[j:]
            if val:
                m = rng.random()
                if d[2] == "next":
                    A.append(g)
                    continue
                if m < 0.35:
                    v = value(rng, d[2])
                    g += v if v else ""
                elif m < 0.6:
                    g += "=" + value(rng, d[2])
                else:
                    A.append(g)
                    if rng.random() < 0.95:
                        A.append(value(rng, d[2]))
                    continue
            if g[1:] in lopts:
                continue
            A.append(g)
    # an option written with one dash that spells a long name is not specified; whether 0b1 is a number is the C library's affair
    return [a for a in A if not (a.startswith("-") and a[1:] in lopts) and not re.match("\\s*[-+]?0[bB][01]", a)]


LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"


def wide_run(rng, n, m):
    """many options, or arguments, or long ones"""
    S = rng.sample(LETTERS, min(n, 62)) + [""] * n
    D = [(S[i], "name%d" % i if rng.random() < 0.8 or not S[i] else "", rng.choice(KINDS), 1) for i in range(n)]
    D[0], D[-1] = (S[0], "first", "flag", 1), (S[n - 1], "L" * rng.choice([20, 127, 255, 256, 300] if n < 100 else [20]), "array", 1)
    run = ["reset", define(D)]
    for k in range(4):
        A = []
        for _ in range(m):
            x = rng.random()
            d = D[0] if x < 0.3 else D[-1] if x < 0.6 else rng.choice(D[-20:]) if x < 0.8 else rng.choice(D)
            if d[2] in ("flag", "null"):
                A.append("-" + d[0] * rng.choice([1, 1, 2, 5]) if d[0] else "--" + d[1])
            elif d[2] in ("array", "string"):
                v = "v" * rng.choice([1, 3, 3, 3, 255, 256, 300 if rng.random() < 0.9 else 5000])
                A += ["--%s=%s" % (d[1], v)] if d[1] else ["-" + d[0], v]
        if k == 1:
            A.append("-" + S[0] * rng.choice([127, 128, 200, 256, 300]))
        run.append("process " + " ".join(map(hx, A)))
    run.append("usage %s %s %s" % (hx("prog"), hx(""), " ".join(hx(help_text(rng, rng.choice([1, 3]))) for _ in D)))
    return run if len(D[-1][1]) < 30 else run[:-1]


def help_text(rng, n):
    return " ".join("".join(rng.choice("abcdef%s.") for _ in range(rng.choice([1, 2, 5, 9, 16, 16, 49, 50, 51] + ([51, 120] if rng.random() < .1 else []))))
                    for _ in range(n))


def check(c):
    c.model_check("Opts", "OptsMC.cfg", allow=("Define",))
    exe = c.build_driver("opts")
    inits, edges = c.graph("Opts", c.pick("OptsGraph.cfg", "OptsGraph3.cfg"))
    runs = [["reset", define(MODEL), "process " + " ".join(hx(bytes(w).decode("latin-1")) for w in a[1][1:])]
            for b in c.tours(inits, edges, maxlen=1) for a, _, _ in b]
    c.drive_and_validate(exe, "OptsTrace", "OptsTrace.cfg", split_runs(runs, c.pick(4, 16)), "spec-behaviours")
    runs = [wide_run(c.rng, n, m) for n, m in c.pick(((2, 140), (5, 300), (20, 30), (140, 20), (300, 60)), ((2, 140), (5, 300), (20, 30), (140, 20), (300, 60)) * 10)]
    for _ in range(c.pick(250, 6000)):
        D = random_defs(c.rng)
        run = ["reset", define(D)]
        for _ in range(8):
            av = " ".join(map(hx, random_argv(c.rng, D)))
            run.append("process " + av)
            if c.rng.random() < 0.3:
                run += ["process soft " + av, define(D)]
        for _ in range(2 if all(d[0] or d[1] for d in D) else 0):
            run.append("usage %s %s %s" % (hx("prog"), hx(c.rng.choice(["", "[options] %s file"])), " ".join(hx(help_text(c.rng, c.rng.choice([0, 3, 9, 12, 30]))) for _ in D)))
        runs.append(run)
    c.drive_and_validate(exe, "OptsTrace", "OptsTrace.cfg", split_runs(runs, c.pick(5, 25)), "random command lines",
                         classify=lambda e: "status:%d" % e["r"][0] if e["op"] == "process" else None)
