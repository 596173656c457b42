"""C34: assertions, and memory that is there or ends the program."""
from harness import calls

TYPES = [1, 4, 8, 24]


def text(r, n):
    return bytes(r.choice(b"abcxyz_.019 %\"()=<>") for _ in range(n))


def some(r):
    k = r.random()
    if k < 0.3:
        f = b"/".join(text(r, r.randint(0, 9)).replace(b"/", b"") for _ in range(r.randint(0, 3))) + b"/" + bytes(r.choice(b"abc_.h") for _ in range(r.randint(1, 12)))
        f = f[1:] if r.random() < 0.5 and f[1:] else f
        return [r.choice(["said", "cried"]), r.choice([None, text(r, r.choice([0, 1, 9, 60, 900, 300 if r.random() < 0.9 else 5000]))]), f.rstrip(b"/"),
                r.choice([0, 1, 99, r.randint(0, 2147483647)]), r.choice([None, text(r, r.choice([0, 5, 30]))])]
    if k < 0.85:
        kind = r.choice(["malloc", "calloc", "realloc", "mallocs", "callocs"])
        size = r.choice(TYPES) if kind[-1] != "s" else r.choice([1, 2, 3, 7, 24, 1000, 65537])
        return ["alloc", kind, size, r.choice([1, 2, 3, r.randint(1, 300)] + ([33000, 65537] if size < 9 else [])), int(r.random() < 0.3 and size > 1), int(r.random() < 0.15), r.randint(0, 40) if kind == "realloc" else 0]
    return ["dup", None if r.random() < 0.1 else text(r, r.choice([0, 1, 7, 8, 100, 300, 4000, 70000 if r.random() < 0.05 else 33])), int(r.random() < 0.15)]


def check(c):
    c.model_check("Sure", "SureMC.cfg")
    exe = c.build_driver("sure", extra=["-Wl,--wrap=" + f for f in ("malloc", "calloc", "realloc", "strdup")])
    _, edges = c.graph("Sure", "SureGraph.cfg")
    todo = []
    for a in [a for v in edges.values() for a, _ in v]:
        a = [None if x == [0] else x for x in a]
        todo.append({"assert": a[:4], "die": a[:1]}.get(a[0], a))
    c.cov["spec_behaviours_replayed"] += len(todo)
    c.cov["transitions_replayed"] += len(todo)
    c.rng.shuffle(todo)
    calls.judge(c, "Sure", exe, todo, 8, "every call of the small model")
    calls.judge(c, "Sure", exe, [some(c.rng) for _ in range(c.pick(1500, 30000))], 8, "random calls")
