"""C28: dumps, hexadecimal digits, decimal numbers."""
from harness.calls import small_model, judge

H = b"0123456789abcdefABCDEF"


def data(r, n):
    return [r.choice([255, 0, 32, 126, 127, 31, r.randint(0, 255), r.randint(0, 255)]) for _ in range(n)]


def number(r):
    k = r.random()
    if k < 0.3:
        v = 10 ** r.randint(0, 9) + r.choice([-1, 0, 1])
    elif k < 0.4:
        v = r.choice([0, 2147483647, 2147483646, 2147483648, 2147483640])
    else:
        v = r.getrandbits(r.randint(1, 31))
    if r.random() < 0.5:
        v = -v
    return min(v, 2147483647)


def call(r):
    op = r.choice(["dump", "dump", "print", "b2h", "b2hlen", "h2b", "h2b", "h2blen", "itoa", "itoa", "itoanull", "ilen"])
    if op == "dump":
        return [op, data(r, r.choice([0, 1, 15, 16, 17, 31, 32, 33, 47, 48, r.randint(0, 100)])), r.choice([0, 0, 0, 1, 2, 3, r.randint(0, 9)])]
    if op == "print":
        return [op, data(r, r.choice([0, 1, 15, 16, 17, 31, 32, r.randint(0, 300)]))]
    if op in ("b2h", "b2hlen"):
        n = r.randint(0, 20)
        return [op, data(r, n), r.choice([2 * n, 2 * n + 1, 2 * n - 1 if n else 0, r.randint(0, 45)])]
    if op in ("h2b", "h2blen"):
        n = r.choice([0, 1, 2, 3, 4, 5, 8, 40, r.randint(0, 60)])
        s = [r.choice(H) for _ in range(n)]
        if s and r.random() < 0.3:
            s[r.randrange(n)] = r.choice([0, 0, 47, 58, 64, 71, 96, 103, 255, 128, 32, 120])
        m = r.choice([n, n, n, max(0, n - 1), n + 1, n + 5, r.randint(0, n + 2)])
        return [op, s, m, r.choice([(n + 1) // 2, n // 2, n, r.randint(0, n + 2)])] if op == "h2b" else [op, s, m]
    v = number(r)
    if op == "ilen":
        return [op, v]
    at = r.choice([0, 0, 1, 5, r.randint(0, 30)])
    n = at + len(str(v))
    return [op, v, at, r.choice([n, n + 1, n + 2, n - 1, at, r.randint(0, 45)])]


def check(c):
    c.model_check("CHex", "CHexMC.cfg")
    exe = c.build_driver("chex")
    r = c.rng
    small_model(c, "CHex", exe)
    calls = [call(r) for _ in range(c.pick(6000, 100000))]
    calls += [["dump", data(r, n), 0] for n in range(c.pick(100, 400))] + [["print", [b] * (b % 16 + 1)] for b in range(256)]
    calls += [["dump", [b, b, b], 0] for b in range(256)] + [["h2b", [r.choice(H), b, 48], 2, 1] for b in range(256)] + [["h2b", [b, 48], 2, 1] for b in range(256)]
    calls += [["b2h", [b], 2] for b in range(256)] + [["ilen", s * (10 ** k + d)] for k in range(10) for d in (-1, 0, 1) for s in (1, -1)]
    for n in (127, 128, 130, 255, 256, 257, 300, 600) + c.pick((), (5000, 33000, 66000)):
        b, s = data(r, n), [r.choice(H) for _ in range(n)]
        calls += [["dump", b, k] for k in (0, 3)] + [["print", b]] + [[o, b, k] for o in ("b2h", "b2hlen") for k in (2 * n, 2 * n + 1)]
        calls += [["h2b", s, n, (n + 1) // 2], ["h2blen", s, n], ["h2b", s[:n - 1] + [103], n, (n + 1) // 2], ["h2b", s, n, 127], ["h2b", s, n - 1, n], ["h2blen", s, n - 1]]
    calls += [["itoa", number(r), at, at + 20] for at in (100, 127, 128, 200, 255, 256, 300) for _ in range(6)]
    calls.append(["print", data(r, c.pick(4096, 40000) % 5000 + 3000)])
    for _ in range(c.pick(300, 3000)):              # rows anywhere
        k = r.randint(1, 15)
        calls.append(["line", [0] * (15 - k) + [r.choice([0, 15, 1, r.randint(0, 15)]) for _ in range(k)] + [0], data(r, r.choice([16, 16, r.randint(1, 16)]))])
    r.shuffle(calls)
    judge(c, "CHex", exe, calls, c.pick(8, 40), "random calls")
    # more than 2^32 bytes
    exe = c.build_driver("chex", "plain")
    judge(c, "CHex", exe, [["far", n] for n in c.pick([35], [0, 1, 16, 35, 4000])], c.pick(1, 5),
          "a dump of more than 2^32 bytes", timeout=300)
