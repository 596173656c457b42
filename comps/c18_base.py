"""C18: base 64, 32 and 16."""
import base64
from harness.core import split_runs

OB, IG, OG = [0, 6, 6, 6, 5, 5, 4], [0, 3, 3, 3, 5, 5, 1], [0, 4, 4, 4, 8, 8, 2]
A = ["", "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"]
A += [A[1], A[1][:-2] + "-_", "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567", "0123456789ABCDEFGHIJKLMNOPQRSTUV", "0123456789ABCDEF"]


def hx(b):
    return "x" + bytes(b).hex()


def enclen(d, p, n):
    return (OG[d] * -(-n // IG[d])) if p and d != 6 else -(-8 * n // OB[d])


def enc(rng, d, data):
    p = rng.random() < 0.5
    n = enclen(d, p, len(data))
    how, k = rng.choice([("alloc", 0), ("buf", n), ("buf", n), ("buf", max(0, n - 1)), ("buf", rng.randint(0, n + 5)), ("none", rng.randint(0, n + 5)),
                         ("pnone", rng.randint(1, n + 5))])
    return "enc %d %d %s %d %s" % (d, p, how, k, hx(data))


def dec(rng, d, text, room=None):
    n = len(text) // OG[d] * IG[d] + len(text) % OG[d]
    ok = len([c for c in text if c not in b" \t\r\n="]) * OB[d] // 8
    how, k = rng.choice([("alloc", 0), ("alloc", 0), ("buf", n), ("buf", ok), ("buf", n), ("buf", rng.randint(0, n + 4)), ("none", rng.randint(0, n + 4)),
                         ("pnone", rng.randint(1, n + 4))])
    return "dec %d %d %s %d %s" % (d, rng.randint(0, 1), how, k, hx(text))


def data(rng):
    k = rng.random()
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 15, 16, 30, rng.randint(0, 120)])
    if k < 0.2:
        return [rng.choice([0, 255, 1, 128]) for _ in range(n)]
    return [rng.randint(0, 255) for _ in range(n)]


def text(rng, d):
    k = rng.random()
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, rng.randint(0, 100)])
    s = [ord(rng.choice(A[d])) for _ in range(n)]
    if k < 0.5:
        s += [61] * rng.choice([0, -n % OG[d], 1, 2, 3, 7, 20])
    if k < 0.3 and s:
        for _ in range(rng.randint(1, 4)):
            s.insert(rng.randint(0, len(s)), ord(rng.choice(" \t\r\n=")))
    if 0.25 < k < 0.4 and s:
        s[rng.randint(0, len(s) - 1)] = rng.choice([0, 11, 12, 33, 42, 45, 46, 48, 49, 56, 64, 91, 95, 96, 97, 123, 127, 128, 255])
    if k > 0.97:
        s = [61] * n
    return s


def check(c):
    c.model_check("Base", c.pick("BaseMC.cfg", "BaseMCBig.cfg"))
    exe = c.build_driver("base")
    r = c.rng
    run = ["bad 0", "bad 1"]
    # every byte at every place of a group, every character at every place of a group, for every alphabet
    for d in range(1, 7):
        for pos in range(IG[d]):
            for b in range(256):
                x = [r.choice([0, 255, r.randint(0, 255)]) for _ in range(r.randint(pos + 1, IG[d] + (b % 3)))] if IG[d] > 1 else [0] * (1 + b % 3)
                x[pos] = b
                run.append(enc(r, d, x))
        for pos in range(OG[d]):
            for b in range(256):
                s = [ord(r.choice(A[d])) for _ in range(OG[d] * r.randint(1, 2))]
                s[pos] = b
                run.append(dec(r, d, s))
        for n in range(0, 41):
            run.append(enc(r, d, [r.randint(0, 255) for _ in range(n)]))
            for pad in (0, 1, -n % OG[d]):
                run.append(dec(r, d, [ord(r.choice(A[d])) for _ in range(n)] + [61] * pad))
    r.shuffle(run)
    c.drive_and_validate(exe, "BaseTrace", "BaseTrace.cfg", split_runs([[x] for x in run], c.pick(6, 8)), "every byte and character at every place")
    run = []
    for _ in range(c.pick(4000, 80000)):
        d = r.randint(1, 6)
        run.append(enc(r, d, data(r)) if r.random() < 0.45 else dec(r, d, text(r, d)))
    for n in (c.pick([1000, 1500, 4097, 70000], [1000, 1500, 3000, 4096, 4097, 10000, 70000, 140000, 340000])):
        for d in range(1, 7):
            run += [enc(r, d, [r.randint(0, 255) for _ in range(n)]), dec(r, d, [ord(r.choice(A[d])) for _ in range(n)])]
    c.drive_and_validate(exe, "BaseTrace", "BaseTrace.cfg", split_runs([[x] for x in run], c.pick(8, 32)), "random data and text")
