"""C33: becoming a daemon."""
from harness.core import split_runs

FAULTS = ["fork1", "setsid", "limit", "fork2", "chdir"]


def call(r, faults, lim=None):
    fds = "".join(r.choice("oo-") for _ in range(3)) + "".join(r.choice("o---") for _ in range(r.randint(0, 30)))
    return ["reset", " ".join(["daemon", r.choice(["none", "root", "root", "nowhere" if r.random() < 0.1 else "root"]),
                               r.choice(["0", "22", "77", "27", "777", "2"]), lim or str(r.choice([40, 64, 100, 200])), fds] + faults +
                              (["slow"] if r.random() < 0.3 else []))]


def check(c):
    c.model_check("Daemon", "DaemonMC.cfg")
    exe = c.build_driver("daemon", extra=["-Wl,--wrap=" + f for f in ("fork", "setsid", "getrlimit", "close", "sleep", "chdir")])
    r = c.rng
    runs = []
    for m in range(32):                               # every set of refusals
        for _ in range(c.pick(2, 20)):
            runs.append(call(r, [f for k, f in enumerate(FAULTS) if m >> k & 1]))
    for _ in range(c.pick(120, 3000)):
        runs.append(call(r, []))
    # a refusal of chdir does not happen without a directory
    runs = [x if "chdir" not in x[1].split() else [x[0], x[1].replace(" none ", " root ")] for x in runs]
    r.shuffle(runs)
    c.drive_and_validate(exe, "DaemonTrace", "DaemonTrace.cfg", split_runs(runs, 8), "daemons", classify=lambda e: "refused" if e.get("faults") else None)
    plain = c.build_driver("daemon", kind="plain", extra=["-O2"] + ["-Wl,--wrap=" + f for f in ("fork", "setsid", "getrlimit", "close", "sleep", "chdir")])
    c.drive_and_validate(plain, "DaemonTrace", "DaemonTrace.cfg", [call(r, [], "inf"), call(r, [], "big")], "no limit on descriptors")
