"""C17: IPv4 network tables."""
from harness.core import split_runs, VP_WRAP

SIZES = [0, 1, 2, 3, 4, 7, 100, 128, 255, 1024, 1025]


def hx(s):
    return "x" + s.encode("latin-1").hex()


def net(base, k, p):
    """The first k bits of base, then the bits p: the network with that prefix."""
    v = base >> (32 - k) << (32 - k) if k else 0
    for i, b in enumerate(p):
        v |= b << (31 - k - i)
    return dotted(v) + "/%d" % (k + len(p))


def dotted(v):
    return ".".join(str(v >> s & 255) for s in (24, 16, 8, 0))


def bad(rng):
    return rng.choice(["", "/", "/24", "1.2.3.4/", "1.2.3.4/-1", "1.2.3.4/x", "host", "1.2.3.4.5", "1.2.3.256", "1.2.3.g", "256.1.1.1/8",
                       "1..2.3", "1.2.3.", "1.2.3.4/8x", "1.2.3.4/ 8", "1.2.3.4/24/3", "999.999.999.999", "1111.222.333.444/9", "z" * 15, "z" * 16,
                       "z" * 17 + "/8", "-1.2.3.4", "1.2.3.4/+8", "1.2.3.4/-2147483648", "~", "1.2.3.999999", "100.100.100.1000",
                       "a" * 300])


def addr(rng, pool):
    v = rng.choice(pool) if rng.random() < 0.7 else rng.getrandbits(32)
    if rng.random() < 0.6:
        v ^= 1 << rng.randint(0, 31)
    return v


def text(rng, pool, any0):
    if rng.random() < 0.06:
        return bad(rng)
    v = dotted(addr(rng, pool))
    k = rng.random()
    if k < 0.2:
        return v
    if k < 0.25:
        return v + "/" + rng.choice(["33", "99", "032", "07", "1000"])
    return v + "/%d" % rng.choice([32, 31, 24, 16, 8, rng.randint(1, 32), rng.randint(1, 32), 0 if any0 else 1])


def random_run(rng):
    pool = [rng.getrandbits(32) for _ in range(3)] + [0, 0xffffffff, 0x0a000000]
    r = ["reset"]
    up, madenode = set(), False
    for _ in range(rng.randint(5, 60)):
        t = rng.randint(1, 3)
        k = rng.random()
        if t not in up:
            if madenode and up:
                continue
            r.append("init %d %d" % (t, rng.choice(SIZES)))
            up.add(t)
        elif k < 0.03:
            r.append("destroy %d" % t)
            up.discard(t)
            madenode = madenode and bool(up)
        elif k < 0.4:
            r.append("add %d %s" % (t, hx(text(rng, pool, rng.random() < 0.05))))
        elif k < 0.5 and len(up) == 1:
            r.append("addnode %d %s" % (t, hx(text(rng, pool, rng.random() < 0.05))))
            madenode = True
        elif k < 0.6 and len(up) == 1:
            r.append("searchnode %d %s" % (t, hx(text(rng, pool, True))))
            madenode = True
        elif k < 0.64:
            r.append("lookups %d %s %d" % (t, hx(text(rng, pool, True)), rng.randint(1, 20)))
        elif k < 0.68:
            r.append("str2net " + hx(text(rng, pool, True)))
        elif k < 0.7:
            v = addr(rng, pool)
            r += ["int2ip %d" % v, "ip2int " + hx(dotted(v))]
        else:
            r.append("search %d %s" % (t, hx(text(rng, pool, True))))
    return r + ["destroy %d" % t for t in up]


def full_run(rng, size):
    """Every prefix length present, and searches that miss."""
    r = ["reset", "init 1 %d" % size]
    a = rng.getrandbits(31)                     # the first bit is 0: addresses from 128.0.0.0 up are in none of them
    ls = list(range(1, 33))
    rng.shuffle(ls)
    r += ["add 1 " + hx("%s/%d" % (dotted(a), k)) for k in ls]
    r += ["search 1 " + hx("%s/%d" % (dotted(a ^ (1 << rng.randint(0, 31))), k)) for k in range(0, 33)]
    r += ["search 1 " + hx(dotted(0x80000000 | rng.getrandbits(31))) for _ in range(5)]
    return r + ["destroy 1"]


def apart_run(rng, size):
    """Every prefix length present, no network within another; each is found, from inside and only from there."""
    r, x, ls = ["reset", "init 1 %d" % size], rng.getrandbits(32), list(range(1, 33))
    rng.shuffle(ls)
    nets = [((x ^ ((0xffffffff << (33 - k)) & 0xffffffff)) >> (32 - k) << (32 - k), k) for k in ls]
    for n, (a, k) in enumerate(nets):
        r.append("add 1 " + hx("%s/%d" % (dotted(a), k)))
        if n in (3, 29, 30):
            r += ["search 1 " + hx(dotted(b | rng.getrandbits(32) & (1 << (32 - j)) - 1)) for b, j in nets]
    r += ["search 1 " + hx(dotted(b | rng.getrandbits(32) & (1 << (32 - j)) - 1)) for b, j in nets]
    r += ["search 1 " + hx("%s/%d" % (dotted(b), j + rng.choice([-1, 0, 1]) if 1 < j < 32 else j)) for b, j in nets]
    return r + ["destroy 1"]


def wide_run(rng, n, size):
    """Very many networks of a few prefix lengths."""
    ls = rng.sample(range(8, 33), 3)
    a = [rng.getrandbits(32) for _ in range(n)]
    r = ["reset", "init 1 %d" % size] + ["add 1 " + hx("%s/%d" % (dotted(x), rng.choice(ls))) for x in a]
    for _ in range(60):
        x = rng.choice(a) ^ (1 << rng.randint(0, 31) if rng.random() < 0.7 else 0)
        r.append("search 1 " + hx("%s/%d" % (dotted(x), rng.choice(ls + [32]))))
    return r + ["destroy 1"]


def check(c):
    c.model_check("Ipv4", "Ipv4MC.cfg")
    for z in c.pick(["3"], ["", "1", "4"]):
        c.model_check("Ipv4Impl", "Ipv4Impl%s.cfg" % ("" if z == "3" else z))
    exe = c.build_driver("ipv4", extra=VP_WRAP)
    inits, edges = c.graph("Ipv4", "Ipv4Graph.cfg")
    runs = []
    for b in c.tours(inits, edges, maxlen=120):
        base, k, size = c.rng.getrandbits(32), c.rng.choice([0, 0, 7, 15, 22, 30]), c.rng.choice(SIZES)
        run = ["reset"]
        for a, _, _ in b:
            if a[0] == "init":
                run.append("init 1 %d" % size)
            elif a[0] == "destroy":
                run.append("destroy 1")
            else:
                # the network of all addresses is the model's empty prefix
                p = a[2]
                s = "nonsense" if p == [2] else "0.0.0.0/0" if p == [] else net(base, k, p)
                run.append("%s 1 %s" % (a[0], hx(s)))
        runs.append(run)
    c.drive_and_validate(exe, "Ipv4Trace", "Ipv4Trace.cfg", split_runs(runs, 4), "spec-behaviours")
    runs = [random_run(c.rng) for _ in range(c.pick(200, 3000))] + [f(c.rng, s) for f in (full_run, apart_run) for s in SIZES]
    runs += [wide_run(c.rng, n, z) for n, z in c.pick(((300, 1), (600, 70000)), ((300, 1), (300, 3), (1000, 7), (3000, 255), (600, 70000), (1000, 256)))]
    c.drive_and_validate(exe, "Ipv4Trace", "Ipv4Trace.cfg", split_runs(runs, c.pick(7, 30)), "random histories")
