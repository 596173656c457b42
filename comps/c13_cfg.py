"""C13: configuration files and variables."""
from harness.core import split_runs


def hx(s):
    return "x" + (s if isinstance(s, bytes) else s.encode("latin-1")).hex()


def line(a):
    if a[0] == "open":
        return "open"
    if a[0] == "set":
        return "set %s %s string %s" % (hx(bytes(a[1][0])), hx(bytes(a[1][1])), hx(bytes(a[2])))
    if a[0] == "get":
        return "get %s %s %s" % (hx(bytes(a[1][0])), hx(bytes(a[1][1])), a[2])
    return a[0]


BLOCKS = ["main", "b", "Global", "a block", "x2", ""]
NAMES = ["int_var", "x", "Y9", "_z", "bool_var", "x"]
TYPES = ["int", "float", "bool", "string"]


def value(rng, refs=True):
    d = lambda k: "".join(rng.choice("0123456789") for _ in range(k))
    k = rng.randrange(18)
    if k == 0:
        return rng.choice(["", "-", "+"]) + rng.choice(["0", str(rng.randint(1, 9)) + d(rng.randint(0, 12))])
    if k == 1:
        return rng.choice(["", "-"]) + "0" + rng.choice("xX") + "".join(rng.choice("0123456789abcdefABCDEF") for _ in range(rng.randint(1, 7)))
    if k == 2:
        return rng.choice(["", "-"]) + "0" + "".join(rng.choice("01234567") for _ in range(rng.randint(1, 8)))
    if k == 3:
        return rng.choice(["", "-", "+"]) + rng.choice(["08", "09.5", d(rng.randint(1, 6)) + "." + d(rng.randint(0, 6)), "." + d(3)])
    if k == 4:
        return rng.choice(["", "-"]) + str(rng.randint(1, 9)) + "." + d(rng.randint(1, 3)) + rng.choice("eE") + rng.choice(["+2", "5", "0", "-2", "03"])
    if k == 5:
        return rng.choice(["yes", "true", "no", "false", "YES", "True", "nO", "fALSE", "yess", "n", "tru"])
    if k in (6, 7):
        q = rng.choice("'\"")
        inner = "".join(rng.choice("abc 12.;#=xyz[]") for _ in range(rng.randint(0, 12))).replace(q, "")
        return q + inner.replace(".", ":") + q
    if k == 8:
        return rng.choice(["'", '"', "'abc", '"it', "a'b", "'a\"", "it's", "''", '""', "'x'y'"])
    if k == 9:
        return "%s.%s" % (rng.choice(BLOCKS), rng.choice(NAMES)) if refs else "plain"
    if k == 10:
        return "%s.%s" % (rng.choice(BLOCKS[:3]), rng.choice(NAMES[:3]))
    if k == 11:
        return rng.choice(["1.2.3", "a.b.c", "12ab", "0x", "0xg", "1e", "e5", ".", "-", "+-1", "1 2", "main.", ".x", "--5", "5-"])
    if k == 12:
        return "w" * rng.choice([1, 50, 990, 1000])
    if k == 13:
        return "".join(rng.choice("ab\xff\xfe\x80\x01") for _ in range(rng.randint(1, 6)))
    return "".join(rng.choice("adeWYZ 019_/:,=") for _ in range(rng.randint(1, 15))).strip() or "w"


def file_lines(rng):
    L = []
    for _ in range(rng.randint(0, 14)):
        ws = lambda: "".join(rng.choice(" \t") for _ in range(rng.choice([0, 0, 1, 2])))
        k = rng.random()
        if k < 0.15:
            L.append(ws() + "[%s]%s" % (rng.choice(BLOCKS), rng.choice(["", " ", " junk = 1", ";c", " \xff x = 7", " \x00 y = 2"])))
        elif k < 0.22:
            L.append(ws() + rng.choice([";", "#"]) + rng.choice([" comment x = 1", " comment x = 1", "\xff x = 3", " \x00 x = 4", "\x80\xfe x = 5"]))
        elif k < 0.28:
            L.append(ws())
        elif k < 0.285:
            L.append(rng.choice(["no equals", "x =", "x = \t", "[%s]" % ("b" * rng.choice([1000, 1200, 2000])),
                                 "x = " + "w" * rng.choice([1000, 1200, 3000])]))
        else:
            L.append(ws() + rng.choice(NAMES) + ws() + "=" + ws() + value(rng) + ws() +
                     rng.choice(["", "", ";", "; note", "# note = 2"]))
    return L


def edge_runs():
    E = ["no equals", "x =", "x = \t", "=", "= 5", "x", "x=;", "x = # c", "x=1;", "x='", "x='a'", "x=';'", "x='a;b' ; c", "x=\"#\"",
         "x = 'a", "x='a' ;'b'", "x='a#b", "x=a'b;c'", "[", "[]", "[a] x=2", "\tx=1", "\t\xffx=1", "\xffx = 2", " \xfe y = 3", "x\xff = 4", "x y = 3", "x-y = 3", "x=1=2", "x== 1"]
    E += ["[%s]" % ("b" * k) for k in (1000, 1500, 2000)]
    E += ["x = " + "w" * k for k in (1000, 1500, 3000)] + ["x=%s1" % (" " * k) for k in (1000, 1500)]
    runs = []
    for e in E:
        for f in ([e], ["[m]", e, "y = 7"], [e, "z=m.y"]):
            for eof in ("", " -"):
                if e.startswith("[") and "]" not in e:
                    continue
                run = ["reset", "open " + " ".join(map(hx, f)) + eof]
                for b in ("Global", "m", "a", "b" * 1000, ""):
                    for v in ("x", "y", "z", ""):
                        run += ["get %s %s %s" % (hx(b), hx(v), t) for t in TYPES]
                runs.append(run + ["close"])
    return runs


def wide_run(rng, n, eof=""):
    """many blocks and variables; long names, values and stretches of blanks"""
    L, K = [], []
    size = lambda: rng.choice([127, 128, 129, 254, 255, 256, 257, 300, 511, 513, 700])
    for i in range(n):
        b = rng.choice(["b%d" % i, "b%d" % rng.randrange(n), "B" * size() + "%d" % i])
        L.append("[%s]" % b)
        for _ in range(rng.choice([1, 1, 2, 3 if n > 50 else 40])):
            v = rng.choice(["v", "w%d" % rng.randrange(300), "n" * size() if rng.random() < 0.3 else "x"])
            k = rng.randrange(6)
            x = rng.choice([str(rng.randint(0, 10 ** 6)), "word%d" % i, "'q;%d'" % i, "yes"])
            if k == 0 and len(v) < 20:
                x = "".join(rng.choice("abcz 0") for _ in range(size())).strip() or "z"
            elif k == 1 and len(v) < 20:
                x = " " * size() + x
            elif k == 2 and len(v) < 20:
                x = x + " " * size() + rng.choice(["", "; c"])
            elif k == 3 and K:
                p, q = rng.choice(K)
                if len(p) + len(q) < 700 and len(v) < 20:
                    x = "%s.%s" % (p, q)
            elif k == 4 and len(v) < 20:
                x = "'" + "a;" * (size() // 2) + "' ;" + "c" * size() if rng.random() < 0.3 else x
            s = v + " " * (size() if k == 5 and len(v) < 20 else 1) + "= " + x
            if len(s) < 1000:
                L.append(s)
                K.append((b, v))
    run = ["reset", "open " + " ".join(map(hx, L)) + eof]
    for b, v in rng.sample(K, min(len(K), 40)) + K[-3:]:
        run += ["get %s %s %s" % (hx(b), hx(v), t) for t in TYPES]
        if rng.random() < 0.2:
            run.append("set %s %s string %s" % (hx(b), hx(v), hx("s" * size())))
    return run + ["close"]


def random_run(rng):
    run = ["reset"]
    for _ in range(rng.randint(1, 3)):
        L = file_lines(rng)
        run.append("open " + " ".join(map(hx, L)) + (" -" if L and L[-1] and rng.random() < 0.3 else ""))
        for _ in range(rng.randint(0, 12)):
            b, v = hx(rng.choice(BLOCKS)), hx(rng.choice(NAMES))
            if rng.random() < 0.6:
                run.append("get %s %s %s" % (b, v, rng.choice(TYPES)))
            else:
                t = rng.choice(TYPES)
                x = {"int": lambda: str(rng.randint(-2 ** 62, 2 ** 62) >> rng.randint(0, 62)),
                     "float": lambda: "%d.%d" % (rng.randint(-99999, 99999), rng.randint(0, 99999)),
                     "bool": lambda: rng.choice(["yes", "no", "TRUE", "False"]),
                     "string": lambda: value(rng).strip() or "s"}[t]()
                run.append("set %s %s %s %s" % (b, v, t, hx(x)))
        for b in BLOCKS:
            for v in NAMES[:5]:
                for t in TYPES:
                    if rng.random() < 0.4:
                        run.append("get %s %s %s" % (hx(b), hx(v), t))
        run.append("close")
        if rng.random() < 0.05:
            run.append(rng.choice(["openmissing", "nothing"]))
    return run


def chain_run(rng, n):
    """a chain of references v0 <- v1 <- ..., in and across blocks; then one of them is made to refer to the end of the chain"""
    at = [(rng.choice(["m", "m", "k", "Global"]), "v%d" % i) for i in range(n + 1)]
    ref = lambda i: "%s.%s" % at[i]
    L = []
    for i, (b, v) in enumerate(at):
        L += ["[%s]" % b, "%s = %s" % (v, ref(i - 1) if i else rng.choice(["7", "yes", "word"]))]
    j, inside = rng.choice([0, 0, 0, rng.randrange(n + 1)]), rng.random() < 0.5
    if inside:
        L += ["[%s]" % at[j][0], "%s = %s" % (at[j][1], ref(n))]
    gets = ["get %s %s %s" % (hx(b), hx(v), t) for b, v in (at if n < 9 else [at[0], at[1], at[n // 2], at[n]]) for t in ("string", "int", "bool")]
    run = ["reset", "open " + " ".join(map(hx, L))] + gets
    for j in ([] if inside else [j]) + [rng.randrange(n + 1)]:
        k = rng.randrange(n + 1)
        run += ["set %s %s string %s" % (hx(at[j][0]), hx(at[j][1]), hx(rng.choice([ref(n), ref(n), ref(k), "9"])))] + gets
    return run + ["close"]


def check(c):
    c.model_check("Cfg", "CfgMC.cfg")
    exe = c.build_driver("cfg")
    inits, edges = c.graph("Cfg", "CfgGraph.cfg")
    runs = [["reset"] + [line(a) for a, _, _ in b] for b in c.tours(inits, edges, maxlen=80)]
    c.drive_and_validate(exe, "CfgTrace", "CfgTrace.cfg", split_runs(runs, 4), "spec-behaviours")
    c.drive_and_validate(exe, "CfgTrace", "CfgTrace.cfg", split_runs(edge_runs(), 4), "edge files")
    runs = [random_run(c.rng) for _ in range(c.pick(120, 3000))]
    runs += [chain_run(c.rng, n) for n in (1, 2, 3, 3, 4, 5, 6, 9, 30) for _ in range(c.pick(4, 60))]
    runs += [wide_run(c.rng, n, c.rng.choice(["", " -"])) for n in c.pick((3, 6, 20, 20, 60, 300), (3, 10, 60, 300, 700) * 12)]
    c.drive_and_validate(exe, "CfgTrace", "CfgTrace.cfg", split_runs(runs, c.pick(5, 25)), "random files and histories",
                         classify=lambda e: "open:%s" % e["r"] if e["op"] == "open" else None)
