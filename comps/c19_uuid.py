"""C19: universally unique identifiers."""
from harness.core import split_runs

A62 = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
TOP = 1 << 64


def hx(b):
    return "x" + bytes(b).hex()


def b62(v, n=11):
    s = ""
    for _ in range(n):
        s = A62[v % 62] + s
        v //= 62
    return s


def half(r):
    k = r.random()
    if k < 0.25:
        return r.choice([0, 1, 61, 62, 63, TOP - 1, TOP - 2, TOP // 2, TOP // 2 - 1, 62 ** 10, 62 ** 10 - 1, 62 ** 9, 255, 256, (1 << 56) - 1, 1 << 56])
    if k < 0.4:
        return r.getrandbits(r.randint(1, 64))
    if k < 0.5:
        return sum(r.choice([0, 255, 128, 1]) << (8 * i) for i in range(8))
    return r.getrandbits(64)


def uid(r):
    return half(r).to_bytes(8, "big") + half(r).to_bytes(8, "big")


def form(r, f, a=None, b=None):
    """text of form f for two halves (base 62: up to 62^11 - 1)"""
    a = half(r) if a is None else a
    b = half(r) if b is None else b
    if f < 2:
        h = "%016x%016x" % (a % TOP, b % TOP)
        if r.random() < 0.3:
            h = "".join(r.choice([x.upper(), x]) for x in h)
        return h if f else "-".join([h[:8], h[8:12], h[12:16], h[16:20], h[20:]])
    x = b62(a)
    return (x[::-1] if f == 3 else x) + b62(b)


def over(r):
    return r.choice([TOP, TOP + 1, TOP + 61, TOP + 62, 62 ** 11 - 1, 2 * TOP, 2 * TOP + 5, r.randint(TOP, 62 ** 11 - 1)])


def texts(r, n):
    out = []
    for _ in range(n):
        f = r.randint(0, 3)
        k = r.random()
        if f > 1 and k < 0.2:
            s = list(form(r, f, over(r) if r.random() < 0.6 else None, over(r) if r.random() < 0.6 else None).encode())
        else:
            s = list(form(r, f).encode())
            if 0.2 < k < 0.5:
                i = r.randrange(len(s))
                s[i] = r.choice([45, 47, 58, 64, 71, 91, 96, 103, 123, 32, 9, 1, 43, 120, 255, 128, 48, 97, 122, 90])
            elif k < 0.6:
                s.insert(r.randrange(len(s) + 1), r.choice([45, 48, 97, 32]))
            elif k < 0.7:
                s.pop(r.randrange(len(s)))
            elif k < 0.74:
                s = s[:r.randint(0, len(s))]
            elif k < 0.78 and f == 0:
                i = r.choice([8, 13, 18, 23])
                j = r.randrange(36)
                s[i], s[j] = s[j], s[i]
        g = f if r.random() < 0.9 else r.choice([0, 1, 2, 3, 4, 9, -1])
        out.append("%s %d %s" % (r.choice(["of", "of", "valid"]), g, hx(s)))
    return out


def writes(r, n):
    out = []
    for _ in range(n):
        f = r.randint(0, 3)
        u = uid(r) if r.random() < 0.95 else b""
        if r.random() < 0.4:
            out.append("tostr %d %s" % (f, hx(u)))
        else:
            z = [37, 33, 23, 23][f]
            k = r.choice([z, z, z, z - 1, z + 1, z + 40, 0, 1, 22, 23, 24, 32, 33, 34, 36, 37, 38, r.randint(0, 60), -1])
            out.append("fill %d %s %d %d" % (f, hx(u), r.random() < 0.93, k))
    return out


def check(c):
    allow = ("Generate", "Named", "Fill", "Valid", "ToStr", "OfStr", "Compare")
    c.model_check("Uuid", "UuidMC.cfg", allow=allow)
    if c.thorough:
        c.model_check("Uuid", "UuidMCBig.cfg", allow=allow)
    exe = c.build_driver("uuid", extra=["-lpthread"])
    r = c.rng
    T = ("UuidTrace", "UuidTrace.cfg")
    runs = [[x] for x in texts(r, c.pick(1500, 30000)) + writes(r, c.pick(800, 15000))]
    for f in (4, 7, -1):
        runs += [["tostr %d %s" % (f, hx(uid(r)))], ["fill %d %s 1 60" % (f, hx(uid(r)))]]
    # every character at every place of every form
    for f in range(4):
        s = form(r, f)
        for i in range(len(s)):
            for ch in (range(1, 256) if c.thorough else r.sample(range(1, 256), 24)):
                t = list(form(r, f).encode())
                t[i] = ch
                runs.append(["%s %d %s" % (r.choice(["of", "valid"]), f, hx(t))])
    for d in range(62):
        for f in (2, 3):
            p = r.randint(0, 10)
            runs.append(["tostr %d %s" % (f, hx(((d * 62 ** p) % TOP).to_bytes(8, "big") + ((61 - d) * 62 ** (10 - p) % TOP).to_bytes(8, "big")))])
    for _ in range(c.pick(200, 2000)):
        u = bytearray(uid(r))
        v = bytearray(u)
        if r.random() < 0.8:
            v[r.randrange(16)] = r.randint(0, 255)
        runs.append(["cmp %s %s" % (hx(u), hx(v))])
    r.shuffle(runs)
    c.drive_and_validate(exe, *T, split_runs(runs, c.pick(8, 24)), "text forms and order")
    runs = []
    for i in range(c.pick(60, 400)):
        n = r.choice([0, 1, 38, 39, 40, 41, 47, 48, 49, 103, 104, 112, r.randint(0, 150)])
        runs.append(["named %d %s" % (r.choice([0, 1, 2, 3, 0, 1, 2, 3, 4, -1]), hx([r.randint(0, 255) for _ in range(n)]))])
    c.drive_and_validate(exe, *T, split_runs(runs, 4), "name-based identifiers")
    c.drive_and_validate(c.build_driver("uuid", "assert", extra=["-lpthread"]), *T, [writes(r, c.pick(200, 2000))], "writing, with the library's assertions on")
    # random identifiers
    scripts = [["gen %d" % c.pick(1500, 12000)], ["gen 3", "fork 4 3", "gen 3", "fork 3 5", "gen 3"], ["fork 3 1", "gen 20"],
               ["proc 24 5", "proc 24 5", "gen 5"], ["threads 32 20", "gen 20", "threads 8 100", "fork 2 10", "threads 8 20"]]
    for _ in range(c.pick(1, 10)):
        s = []
        for _ in range(8):
            s.append(r.choice(["gen %d" % r.randint(1, 20), "fork %d %d" % (r.randint(0, 3), r.randint(1, 4)), "threads %d %d" % (r.randint(1, 32), r.randint(1, 8)),
                               "proc %d %d" % (r.randint(1, 16), r.randint(1, 4))]))
        scripts.append(s)
    c.drive_and_validate(exe, *T, scripts, "random identifiers")
    c.drive_and_validate(c.build_driver("uuid", "plain", extra=["-lpthread"]), *T, scripts[1:], "random identifiers, without the sanitizer")
    c.drive_and_validate(c.build_driver("uuid", "tsan", extra=["-lpthread"]), *T, [["threads 8 50", "threads 8 20", "gen 5"]], "random identifiers, races")
