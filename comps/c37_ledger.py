"""C37: releasing an object gives back all it held, and only that."""
import json
import os
import re

from harness.core import split_runs

WRAP = ["-fno-builtin"] + ["-Wl,--wrap=" + f for f in ("vsyslog", "__vsyslog_chk", "openlog", "closelog")]
AGAIN = {"research": "search", "rerun": "run"}


def kinds(c):
    """What the specification says can be done with each kind."""
    with open(os.path.join(c.specdir, "Ledger.tla")) as f:
        text = f.read()
    K = {}
    for m in re.finditer(r'(\w+)\s+\|-> \[make \|-> \{([^}]*)\}, bad \|-> \{([^}]*)\},\s+use\s+\|-> \{([^}]*)\}, look \|-> \{([^}]*)\}', text):
        K[m.group(1)] = [re.findall(r'"(\w+)"', g) for g in m.groups()[1:]]
    with open(os.path.join(c.specdir, "LedgerTrace.cfg")) as f:
        calls = re.findall(r'"(\w+)"', f.read().split("CallNames")[1])
    assert len(K) >= 16 and len(calls) > 20
    return K, calls


def line(a, x):
    if a[0] == "call":
        return "call %s %d" % (a[3], x)
    return "%s %d %s %s %d" % (a[0], a[1], a[2], a[3] or "-", x)


def random_run(rng, K, calls, n):
    run, on = ["reset"], {}
    for _ in range(n):
        i = rng.randint(1, 5)
        x = rng.randrange(4000)
        if rng.random() < 0.1:
            run.append("call %s %d" % (rng.choice(calls), x))
        elif i not in on:
            k = rng.choice(sorted(K))
            make, bad = K[k][:2]
            m = rng.choice(make + bad)
            run.append("make %d %s %s %d" % (i, k, m, x))
            if m in make:
                on[i] = k
        elif rng.random() < 0.08 or not K[on[i]][2] + K[on[i]][3]:
            run.append("drop %d %s - 0" % (i, on.pop(i)))
        else:
            k = on[i]
            u = rng.choice(K[k][2] * 2 + K[k][3])
            if u in AGAIN:
                run.append("use %d %s %s %d" % (i, k, AGAIN[u], x))
            run.append("use %d %s %s %d" % (i, k, u, x))
    return run + ["drop %d %s - 0" % (i, k) for i, k in sorted(on.items())]


def check(c):
    K, calls = kinds(c)
    c.model_check("LedgerMC", "LedgerMC.cfg", allow=("Next",))
    exe = c.build_driver("ledger", kind="plain", extra=WRAP)
    inits, edges = c.graph("LedgerMC", c.pick("LedgerGraph.cfg", "LedgerGraphBig.cfg"))
    runs = [["reset"] + [line(a, c.rng.randrange(4000)) for a, _, _ in b] for b in c.tours(inits, edges, maxlen=120)]
    c.drive_and_validate(exe, "LedgerTrace", "LedgerTrace.cfg", split_runs(runs, c.pick(8, 30)), "spec-behaviours")
    runs = [random_run(c.rng, K, calls, 150) for _ in range(c.pick(60, 2000))]
    c.drive_and_validate(exe, "LedgerTrace", "LedgerTrace.cfg", split_runs(runs, c.pick(4, 25)), "random histories")
