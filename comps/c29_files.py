"""C29: directories, paths and process number files."""
import errno
from harness.core import split_runs

LONG = [b"q" * 255, b"q" * 256, b"q" * 200]


def word(x):
    return "-" if x == [0] else str(x) if isinstance(x, int) else "x" + bytes(x).hex()


def names(p):
    return [x for x in p.split(b"/") if x and x != b"@"]


class Tree:
    """what the script has made for certain, to aim at it"""
    def __init__(self):
        self.dirs, self.files = [], []

    def path(self, r, deep=3):
        k = r.random()
        if k < 0.4 and self.dirs + self.files:
            base = r.choice(self.dirs + self.files)
            out = base + b"".join(b"/" + self.name(r) for _ in range(r.choice([0, 0, 1, 1, 2])))
        else:
            out = b"/".join(self.name(r) for _ in range(r.randint(1, deep)))
        if r.random() < 0.25:
            c = out.split(b"/")
            for _ in range(r.randint(1, 2)):
                c.insert(r.randint(0, len(c)), r.choice([b".", b"..", b"", b"."]))
            out = b"/".join(c)
            if out.startswith(b"/"):
                out = b"." + out
        if r.random() < 0.15:
            out += b"/"
        d = 0
        for n in names(out):                       # never above where we are
            d += 0 if n == b"." else -1 if n == b".." else 1
            if d < 0:
                return b"qa"
        if r.random() < 0.2:
            out = b"@/" + out
        return out

    @staticmethod
    def name(r):
        return r.choice([b"qa", b"qb", b"qc", b"qa.d", b"q", b"\xffq"]) if r.random() < 0.95 else r.choice([b"q%c" % r.randint(48, 122) if True else b"", b"x y"])


def run(r):
    t, out = Tree(), ["reset"]
    for _ in range(r.randint(4, 14)):
        k = r.random()
        p = t.path(r)
        if k < 0.05:
            out.append("umask %d" % r.choice([0, 0o22, 0o77, 0o27]))
        elif k < 0.15:
            n = r.choice([b"qa", b"qb", b"qf"])
            if n not in [x.split(b"/")[0] for x in t.dirs]:
                out.append("put %s %s" % (word(n), word(bytes(r.randint(0, 255) for _ in range(r.choice([0, 3, 40]))))))
                t.files.append(n)
        elif k < 0.6:
            s = "mkdir %s %d %d" % (word(p), r.choice([0o777, 0o755, 0o700, 0o1777]), r.random() < 0.8)
            t.dirs.append(b"/".join(n for n in names(p) if n not in (b".", b".."))) if b".." not in p else None
            j = r.random()
            clean = [n for n in names(p)]
            pre = b"/".join(clean[:r.randint(1, len(clean))]) if clean and b".." not in clean and b"." not in clean else None
            if j < 0.2:
                s += " %s:%d:%d" % (r.choice("rR"), r.choice([1, 1, 2, 2, 3, 3, 4, 5, 6]), r.choice([errno.EACCES, errno.ENOSPC, errno.EROFS, errno.ENOENT, errno.EIO]))
            elif j < 0.6 and pre:
                s += " %s:%d:%s" % (r.choice("dddf"), r.choice([1, 2, 2, 3, 3, 4, 4, 5, 6, 7]), word(pre))
                if r.random() < 0.3:
                    s += " d:%d:%s" % (r.randint(1, 7), word(b"qz/" + pre))
            out.append(s)
        elif k < 0.7:
            out.append("exists %s" % word(p))
        elif k < 0.85:
            out.append("basedir %s %s" % (word(p), word(r.choice([b"qa", b"qb", b"qc", b".", b"qa/qb", b"qa.d", t.name(r)]))))
        else:
            out.append("writepid %s %d%s" % (r.choice(["-", word(b"qp")] + [word(p)] * 8), r.choice([1, 9, 10, 4711, 32768, 4194304, 2147483647, r.randint(1, 99999)]),
                                             r.choice(["", "", "", " 1", " 2", " 3", " 4", " 5", " 9"])))
    return out


def longrun(r):
    """names and paths about as long as may be"""
    out = ["reset"]
    for _ in range(3):
        n = b"q" * r.choice([1, 255, 255, 256, 200])
        out.append("mkdir %s %d %d" % (word(n + r.choice([b"", b"/" + n, b"/"])), 0o755, r.randint(0, 1)))
    total = r.choice([4094, 4095, 4096, 4097, 4098, 4200, 5000])
    p = b"/".join([b"q" * 255] * 20)[:total]
    if p.endswith(b"/"):
        p = p[:-1] + b"q"
    out.append("mkdir %s %d %d" % (word(p), 0o755, r.randint(0, 1)))
    out.append("mkdir %s %d 1" % (word(b"/".join([b"q" * 200] * 8)), 0o755))
    out.append("exists %s" % word(p))
    out.append("basedir %s %s" % (word(p), word(b"q" * r.choice([1, 200, 255, 3000]))))
    out.append("basedir %s %s" % (word(b"/".join([b"q" * 200] * 8) + b"/zz" * r.choice([1, 30])), word(b"q" * 200)))
    out.append("writepid %s 77" % word(b"q" * r.choice([254, 255, 256, 5000])))
    return out


def check(c):
    c.model_check("Files", "FilesMC.cfg")
    c.model_check("FilesAlg", c.pick("FilesAlgMC.cfg", "FilesAlgMCBig.cfg"))
    exe = c.build_driver("files", extra=["-Wl,--wrap=" + f for f in ("mkdir", "stat", "write", "getpid")])
    inits, edges = c.graph("Files", "FilesGraph.cfg")
    runs = [["reset"] + [" ".join([a[0]] + [word(x) for x in a[1:]]) for a, _, _ in t] for t in c.tours(inits, edges)]
    c.drive_and_validate(exe, "FilesTrace", "FilesTrace.cfg", split_runs(runs, 8), "every call of the small model")
    r = c.rng
    runs = [run(r) for _ in range(c.pick(700, 12000))] + [longrun(r) for _ in range(c.pick(8, 60))]
    r.shuffle(runs)
    c.drive_and_validate(exe, "FilesTrace", "FilesTrace.cfg", split_runs(runs, c.pick(8, 48)), "random trees",
                         classify=lambda e: "refused" if e.get("refused") else "others at work" if e.get("did") else None)
