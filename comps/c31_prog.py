"""C31: the program's name and directory."""
from harness.core import split_runs


def word(x):
    return "-" if x == [0] or x is None else str(x) if isinstance(x, int) else "x" + bytes(x).hex()


NAMES = [b"p", b"q", b"prog", b"p.exe", b"prog2", b"pr og"]
DIRS = [b"@", b"@/a", b"@/b", b"@/u", b"@/u/a", b"@/u/v", b"@/u/v/a", b"@/u/v/bin", b"@/a/c"]
HERE = [b"a", b"bin", b".", b"..", b"../a", b"../../b", b"./a", b"nowhere"]


def given(r):
    n = r.choice(NAMES)
    k = r.random()
    if k < 0.4:
        return n
    if k < 0.6:
        return r.choice(DIRS) + r.choice([b"/", b"//", b"/./"]) + n
    if k < 0.9:
        return r.choice([b"", b"./", b".//"]) + r.choice(HERE) + r.choice([b"/", b"/", b"//"]) + n
    return r.choice([b"/p", b"//p", b"/", b"p/", b"./p", b"././p", b"./", b".p", b"..p", b"./.p", b"/nowhere/p", b"@/a/p/", b"p//"])


def path(r):
    if r.random() < 0.1:
        return None
    sep = lambda: r.choice([b"", b"", b"/"])
    parts = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 4, 6])):
        k = r.random()
        parts.append(b"" if k < 0.15 else r.choice(HERE) if k < 0.25 else b"@/nowhere" if k < 0.35 else r.choice(DIRS) + sep())
    return b":".join(parts)


def run(r):
    out, there = ["reset"], []
    for _ in range(r.randint(4, 20)):
        k = r.random()
        if k < 0.1:
            out.append("name %s %d" % (word(r.choice([None, b"", given(r), given(r), given(r)])), r.randint(0, 1)))
        elif k < 0.3:
            f = r.choice(DIRS) + b"/" + r.choice(NAMES[:2] * 3 + NAMES)
            if f not in there:
                there.append(f)
                out.append("put %s" % word(f))
        elif k < 0.35 and there:
            f = there.pop(r.randrange(len(there)))
            out.append("rm %s" % word(f))
        elif k < 0.5:
            out.append("env %s" % word(path(r)))
        elif k < 0.56:
            out.append("cd %s" % word(r.choice(DIRS)))
        elif k < 0.58:
            out.append("os")
        else:
            out.append("path %s" % word(None if r.random() < 0.06 else b"" if r.random() < 0.03 else given(r)))
    return out


def longrun(r):
    n = r.choice([255, 4000, 4094, 4095, 4096, 4097, 5000])
    t = b"x" * n if r.random() < 0.5 else (b"y" * 50 + b"/") * (n // 51) + b"z" * (n % 51)
    return ["reset", "env %s" % word(path(r)), "name %s %d" % (word(t), r.randint(0, 1)), "path %s" % word(t), "path -", "name - 0",
            "path %s" % word(b"/" + t), "path %s" % word(b"p"), "env %s" % word(b"@/" + t + b":@/a"), "path %s" % word(b"q")]


def check(c):
    c.model_check("Prog", "ProgMC.cfg")
    exe = c.build_driver("prog")
    inits, edges = c.graph("Prog", "ProgGraph.cfg")
    runs = [["reset"] + [" ".join([a[0]] + [word(x) for x in a[1:]]) for a, _, _ in t] for t in c.tours(inits, edges)]
    c.drive_and_validate(exe, "ProgTrace", "ProgTrace.cfg", split_runs(runs, 8), "every call of the small model")
    r = c.rng
    runs = [run(r) for _ in range(c.pick(1500, 30000))] + [longrun(r) for _ in range(c.pick(12, 100))]
    r.shuffle(runs)
    c.drive_and_validate(exe, "ProgTrace", "ProgTrace.cfg", split_runs(runs, c.pick(8, 48)), "random programs",
                         classify=lambda e: e["op"])
