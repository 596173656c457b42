"""Shared machinery: build /repo's working tree, run C drivers, run TLC, validate traces,
turn TLC state graphs into driver scripts, write evidence, report violations."""
import os, sys, json, re, shutil, subprocess, tempfile, time, random, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
VP_WRAP = ["-Wl,--wrap=" + f for f in ("malloc", "calloc", "realloc", "free", "strdup")]
ASAN = "-fsanitize=address -fno-omit-frame-pointer"


class MachineryError(Exception):
    """The check itself could not do its work (build failure, TLC error): not an outcome."""


class Violation(Exception):
    def __init__(self, what, files=None):
        Exception.__init__(self, what)
        self.what = what
        self.files = files or {}


class Run:
    """Result of one driver run."""
    def __init__(self, rc, out, err, trace, timed_out):
        self.rc, self.out, self.err, self.trace, self.timed_out = rc, out, err, trace, timed_out


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random("%s/%s" % (pid, seed))
        self.t0 = time.time()
        self.budget = 780 if tier == "quick" else 5400
        self.scratch = tempfile.mkdtemp(prefix="vp-%s-" % pid)
        self.specdir = os.path.join(self.scratch, "spec")
        shutil.copytree(os.path.join(VERIF, "spec"), self.specdir)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, events_validated=0,
                        models=[], samples=[], ops={}, spec_behaviours_replayed=0,
                        transitions_replayed=0, binding_selftests=0)
        self.assumptions = []
        self.known_reported = []
        self.ntrace = 0
        self.libs = {}

    # ---------------------------------------------------------------- util
    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def left(self):
        return self.budget - (time.time() - self.t0)

    def path(self, *p):
        return os.path.join(self.scratch, *p)

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    # --------------------------------------------------------------- build
    def build_lib(self, kind="asan"):
        """Configure and build the static libraries from REPO's working tree in scratch."""
        if kind in self.libs:
            return self.libs[kind]
        flags = {"asan": ASAN, "plain": "", "assert": "-UNDEBUG -DZT_LOG_FUNCTION=__FUNCTION__ " + ASAN,
                 "tsan": "-fsanitize=thread"}[kind]
        b = self.path("build-" + kind)
        env = dict(os.environ, CC="gcc", CXX="g++", LC_ALL="C.UTF-8")
        for v in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "LD_PRELOAD"):
            env.pop(v, None)
        btype = "Debug" if kind == "assert" else "RelWithDebInfo"
        cmds = [["cmake", "-S", REPO, "-B", b, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=" + btype,
                 "-DCMAKE_POLICY_VERSION_MINIMUM=3.5",
                 "-DCMAKE_C_FLAGS=-Wno-error -w " + flags,
                 "-DCMAKE_CXX_FLAGS=-Wno-error -w " + flags],
                ["ninja", "-C", b, "zt", "zt_gc", "zt_unit"]]
        for c in cmds:
            r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, text=True)
            if r.returncode:
                raise MachineryError("build failed: %s\n%s" % (" ".join(c), r.stdout[-3000:]))
        self.libs[kind] = (b, flags)
        return self.libs[kind]

    def build_driver(self, name, kind="asan", extra=()):
        b, flags = self.build_lib(kind)
        exe = self.path("%s-%s" % (name, kind))
        src = os.path.join(VERIF, "drivers", name + ".c")
        with open(os.path.join(b, "build.ninja")) as f:       # the macros the library itself is built with
            defs = sorted(set(re.findall(r"(?<=\s)-D(?:HAVE_\w+|WITH_\w+)(?:=\S+)?", f.read())))
        cmd = ["gcc", "-g", "-O1", "-w", "-D_GNU_SOURCE"] + flags.split() + defs + [
            "-I", os.path.join(VERIF, "drivers"), "-I", os.path.join(REPO, "src"),
            "-I", os.path.join(b, "src"), "-I", os.path.join(REPO, "compat"), src, "-o", exe] + list(extra) + [
            os.path.join(b, "src/libzt/libzt_unit.a"), os.path.join(b, "src/libzt/libzt_gc.a"),
            os.path.join(b, "src/libzt/libzt.a"), "-lpthread", "-lm"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise MachineryError("driver build failed: %s\n%s" % (" ".join(cmd), r.stdout[-3000:]))
        return exe

    # -------------------------------------------------------------- driver
    def run_driver(self, exe, script, timeout=60, args=(), env=None):
        """script: list of lines (or None).  The driver writes ndjson events to the file in $VP_TRACE."""
        self.ntrace += 1
        tr = self.path("trace-%d.ndjson" % self.ntrace)
        e = dict(os.environ, LC_ALL="C", TZ="UTC", VP_TRACE=tr,
                 ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
                              "detect_stack_use_after_return=0:handle_abort=1")
        e.pop("LD_PRELOAD", None)
        if env:
            e.update(env)
        wd = tempfile.mkdtemp(prefix="wd-", dir=self.scratch)
        data = ("\n".join(script) + "\n").encode("latin-1") if script is not None else b""
        p = subprocess.Popen([exe] + list(args), stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, cwd=wd, env=e, start_new_session=True)
        to = False
        try:
            out, err = p.communicate(data, timeout=timeout)
        except subprocess.TimeoutExpired:
            to = True
            try:
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass
            out, err = p.communicate()
        events = []
        if os.path.exists(tr):
            with open(tr, "r", encoding="latin-1") as f:
                for line in f:
                    if line.endswith("\n"):
                        events.append(line.rstrip("\n"))
        shutil.rmtree(wd, ignore_errors=True)
        return Run(p.returncode, out.decode("latin-1"), err.decode("latin-1"), events, to)

    # ----------------------------------------------------------------- TLC
    def tlc(self, module, cfg, workers=4, timeout=None, env=None, extra=(), heap="3g", cfgtext=None):
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.scratch)
        if cfgtext is not None:
            cfg = os.path.basename(meta) + ".cfg"
            with open(os.path.join(self.specdir, cfg), "w") as f:
                f.write(cfgtext)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m", "-cp", TLA_CP]
        cmd += ["tlc2.TLC", "-noGenerateSpecTE", "-deadlock", "-metadir", meta, "-workers", str(workers),
                "-config", cfg] + list(extra) + [module + ".tla"]
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        if env:
            e.update(env)
        if timeout is None:
            timeout = max(20, self.left())
        try:
            r = subprocess.run(cmd, cwd=self.specdir, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC timed out on %s/%s" % (module, cfg))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = r.stdout.decode("utf-8", "replace")
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        d = re.search(r"depth of the complete state graph search is (\d+)", out)
        return dict(rc=r.returncode, out=out, generated=int(m.group(1)) if m else 0,
                    distinct=int(m.group(2)) if m else 0, depth=int(d.group(1)) if d else 0)

    def model_check(self, module, cfg, workers=6, timeout=None, min_states=2, extra=(), allow=()):
        """Exhaustive model check of the specification itself; failure is a broken model, not a violation."""
        r = self.tlc(module, cfg, workers=workers, timeout=timeout, extra=tuple(extra) + ("-coverage", "1"))
        if r["rc"] != 0 or "Model checking completed. No error has been found" not in r["out"]:
            o = "\n".join(x for x in r["out"].splitlines() if not re.match(r"^ +\|*line \d+|^<\w+ line", x))
            raise MachineryError("model %s/%s: TLC rc=%s\n%s" % (module, cfg, r["rc"], o[-4000:]))
        if r["distinct"] < min_states:
            raise MachineryError("model %s/%s explores only %d states" % (module, cfg, r["distinct"]))
        never = []
        for m in re.finditer(r"^<(\w+) line \d+.*?>: (\d+):(\d+)", r["out"], re.M):
            if m.group(3) == "0" and m.group(1) not in never and m.group(1) not in allow:
                never.append(m.group(1))
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["generated"]
        self.cov["models"].append(dict(module=module, cfg=cfg, distinct=r["distinct"], generated=r["generated"],
                                       depth=r["depth"], actions_never_taken=never))
        if never:
            raise MachineryError("model %s/%s: actions never taken: %s" % (module, cfg, never))
        return r

    # ------------------------------------------------- graph -> behaviours
    def graph(self, module, cfg, timeout=None):
        """Run TLC with an ACTION_CONSTRAINT that prints every transition as JSON; return (inits, edges)."""
        r = self.tlc(module, cfg, workers=1, timeout=timeout)
        if r["rc"] != 0 or "No error has been found" not in r["out"]:
            raise MachineryError("graph %s/%s: TLC rc=%s\n%s" % (module, cfg, r["rc"], r["out"][-3000:]))
        inits, edges, seen = [], {}, set()
        for line in r["out"].splitlines():
            if not line.startswith('"@T{'):
                continue
            d = json.loads(json.loads(line)[2:])
            f, t, a = d["f"], d["t"], d["a"]
            if d.get("i") and f not in inits:
                inits.append(f)
            k = (f, json.dumps(a), t)
            if k in seen:
                continue
            seen.add(k)
            edges.setdefault(f, []).append((a, t))
        if not inits:
            raise MachineryError("graph %s/%s: no transitions emitted\n%s" % (module, cfg, r["out"][-3000:]))
        n = sum(len(v) for v in edges.values())
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["generated"]
        self.cov["models"].append(dict(module=module, cfg=cfg, distinct=r["distinct"], generated=r["generated"],
                                       depth=r["depth"], labelled_transitions=n))
        return inits, edges

    def tours(self, inits, edges, maxlen=400, limit=None):
        """Behaviours (lists of action tuples, each from an initial state) covering every transition."""
        from collections import deque
        unc = {s: list(range(len(v))) for s, v in edges.items()}
        for s in unc:
            self.rng.shuffle(unc[s])
        remaining = sum(len(v) for v in unc.values())
        total = remaining
        out = []

        def path_to_uncovered(src):
            prev = {src: None}
            q = deque([src])
            while q:
                s = q.popleft()
                if unc.get(s):
                    p = []
                    while prev[s] is not None:
                        ps, a = prev[s]
                        p.append((a, s))
                        s = ps
                    return p[::-1]
                for a, t in edges.get(s, ()):
                    if t not in prev:
                        prev[t] = (s, a)
                        q.append(t)
            return None
        covered = 0
        while remaining and (limit is None or covered < limit):
            started = False
            for i in inits:
                p0 = path_to_uncovered(i)
                if p0 is None:
                    continue
                started = True
                cur, beh = i, []
                while len(beh) < maxlen:
                    p = p0 if p0 is not None else path_to_uncovered(cur)
                    p0 = None
                    if p is None:
                        break
                    if beh and len(beh) + len(p) > maxlen:
                        break
                    for a, t in p:
                        beh.append((a, cur, t))
                        cur = t
                    k = unc[cur].pop()
                    a, t = edges[cur][k]
                    beh.append((a, cur, t))
                    cur = t
                    remaining -= 1
                    covered += 1
                out.append(beh)
                break
            if not started:
                break
        if remaining and limit is None:
            raise MachineryError("%d of %d transitions of the specification's graph cannot be reached in it: "
                                 "states are not named consistently" % (remaining, total))
        self.cov["spec_behaviours_replayed"] += len(out)
        self.cov["transitions_replayed"] += covered
        return out

    # --------------------------------------------------- trace validation
    def validate(self, module, cfg, events, timeout=None, tag=""):
        """events: list of ndjson lines.  Returns number of accepted events (== len(events) when accepted)."""
        if not events:
            raise MachineryError("empty trace for %s" % module)
        self.ntrace += 1
        f = self.path("val-%d.ndjson" % self.ntrace)
        with open(f, "w", encoding="utf-8") as fh:
            fh.write("\n".join(events) + "\n")
        r = self.tlc(module, cfg, workers=1, timeout=timeout, env={"TRACE": f})
        out = r["out"]
        if "No error has been found" in out and r["rc"] == 0:
            return len(events)
        m = re.search(r"@ACCEPTED (\d+)", out)
        if ("TraceAccepted" in out and m) or ("Invariant" in out and m):
            return int(m.group(1))
        # an invariant / action property broken along the trace: the level tells where
        m2 = re.findall(r"^State (\d+):", out, re.M)
        if ("is violated" in out) and m2:
            return int(m2[-1]) - 2 if int(m2[-1]) >= 2 else 0
        raise MachineryError("trace validation %s/%s: TLC rc=%s\n%s" % (module, cfg, r["rc"], out[-4000:]))

    def drive_and_validate(self, exe, module, cfg, scripts, tag="", timeout=60, is_reset=None, env=None,
                           classify=None, jobs=5, args=(), selftest=True, post=None, val_timeout=None):
        """Run each script in the real code and validate the recorded trace against the specification."""
        def one(item):
            k, script = item
            r = self.run_driver(exe, script, timeout=timeout, env=env, args=args)
            bad = self.abnormal(r)
            if bad:
                r2 = self.run_driver(exe, script, timeout=timeout, env=env, args=args)
                bad2 = self.abnormal(r2)
                if bad2:
                    return ("abn", k, script, bad2, r2)
                r = r2
            ev = post(r.trace) if post else r.trace
            if not ev:
                raise MachineryError("driver produced no events (%s %s)\n%s" % (tag, k, r.err[-1000:]))
            n = self.validate(module, cfg, ev, timeout=val_timeout)
            if n != len(ev):
                r2 = self.run_driver(exe, script, timeout=timeout, env=env, args=args)
                ev2 = post(r2.trace) if post else r2.trace
                n2 = self.validate(module, cfg, ev2, timeout=val_timeout) if ev2 else 0
                if n2 != len(ev2) or self.abnormal(r2):
                    return ("rej", k, script, n2, ev2)
                return ("rej", k, script, n, ev) if ev != ev2 else ("ok", k, script, n2, ev2)
            return ("ok", k, script, n, ev)
        last_ok = None
        with cf.ThreadPoolExecutor(max_workers=jobs) as ex:
            results = list(ex.map(one, list(enumerate(scripts))))
        for res in results:
            if res[0] == "abn":
                _, k, script, what, r = res
                raise Violation("%s script %d: %s" % (tag, k, what), {
                    "script.txt": "\n".join(script or []), "stderr.txt": r.err[-20000:],
                    "trace.ndjson": "\n".join(r.trace[-200:]), "exe": os.path.basename(exe)})
            if res[0] == "rej":
                _, k, script, n, ev = res
                lo = max(0, n - 15)
                bad = ev[n] if n < len(ev) else "(trace accepted up to its end, but the run is incomplete)"
                raise Violation("%s script %d: the real code's event %d is not a behaviour of %s: %s" %
                                (tag, k, n + 1, module, bad[:600]), {
                                    "script.txt": "\n".join(script or []), "trace.ndjson": "\n".join(ev),
                                    "explain.txt": "matched prefix (tail):\n%s\nrejected event:\n%s\n" %
                                    ("\n".join(ev[lo:n]), bad), "exe": os.path.basename(exe)})
        for res in results:
            _, k, script, n, ev = res
            ends = [e for e in ev if '"op":"reset"' in e]
            self.cov["traces_validated_against_impl"] += max(1, len(ends))
            self.cov["events_validated"] += len(ev)
            for e in ev:
                m = re.search(r'"op":"(\w+)"', e)
                if m:
                    self.cov["ops"][m.group(1)] = self.cov["ops"].get(m.group(1), 0) + 1
            if classify:
                for e in ev:
                    c = classify(json.loads(e))
                    if c:
                        self.cov.setdefault("outcomes", {})
                        self.cov["outcomes"][c] = self.cov["outcomes"].get(c, 0) + 1
            last_ok = ev
        if last_ok and len(self.cov["samples"]) < 6:
            self.cov["samples"].append({"kind": tag, "events": [json.loads(e) if len(e) < 1500 else e[:1500] + " ..." for e in last_ok[:6]]})
        if selftest and last_ok:
            self.selftest(module, cfg, last_ok)
        return results

    @staticmethod
    def abnormal(r):
        if r.timed_out:
            return "hang: the driver did not finish (last event: %s)" % (r.trace[-1][:300] if r.trace else "none")
        if r.rc == 98:
            raise MachineryError("driver rejected its script: %s" % r.err[-500:])
        if r.rc != 0:
            m = re.search(r"(ERROR: \w+: .*|WARNING: ThreadSanitizer.*|runtime error.*|Assertion.*)", r.err)
            return "crash: driver exit %d%s (last event: %s)" % (
                r.rc, " " + m.group(1)[:200] if m else "", r.trace[-1][:300] if r.trace else "none")
        return None

    def selftest(self, module, cfg, events, tries=6):
        """Binding demonstration: corrupt one recorded result of an accepted trace; it must be rejected.
        A changed result can happen to be another one that is allowed: only if several are accepted does the test fail."""
        cand = [i for i, e in enumerate(events) if '"r":' in e and '"nb":1' not in e][-400:]
        self.rng.shuffle(cand)
        accepted = []
        for i in cand:
            ev = json.loads(events[i])
            new = _corrupt(ev["r"])
            if new is None:
                continue
            ev["r"] = new
            pre = events[max(0, self._reset_before(events, i)):i] + [json.dumps(ev, separators=(",", ":"))]
            n = self.validate(module, cfg, pre)
            if n == len(pre):
                accepted.append(json.dumps(ev))
                if len(accepted) >= tries:
                    raise MachineryError("binding self-test: corrupted events accepted by %s: %s" % (module, accepted))
                continue
            self.cov["binding_selftests"] += 1
            if not self.thorough or self.cov["binding_selftests"] >= 3:
                return
        if accepted:
            raise MachineryError("binding self-test: corrupted events accepted by %s: %s" % (module, accepted))

    @staticmethod
    def _reset_before(events, i):
        while i > 0 and '"op":"reset"' not in events[i]:
            i -= 1
        return i

    # ------------------------------------------------------------ outputs
    def known(self, what):
        self.known_reported.append(what)
        print("KNOWN-FINDING: property=%s %s" % (self.pid, what), flush=True)

    def evidence(self, level, violations):
        cov = dict(self.cov)
        if not cov["samples"]:
            cov["samples"] = ["(none: the run stopped before a trace was accepted)"]
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=violations)
        if self.known_reported:
            ev["known_findings"] = self.known_reported
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, ".%s.tmp" % self.pid)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(d, self.pid + ".json"))


def _corrupt(r):
    if isinstance(r, bool):
        return not r
    if isinstance(r, int):
        return r + 1
    if isinstance(r, list):
        if r and isinstance(r[-1], int) and not isinstance(r[-1], bool):
            return r[:-1] + [r[-1] + 1]
        return None
    return None


def split_runs(runs, nchunks):
    """Distribute runs (lists of lines) over nchunks scripts."""
    out = [[] for _ in range(max(1, min(nchunks, len(runs))))]
    for i, r in enumerate(runs):
        out[i % len(out)].extend(r)
    return [o for o in out if o]


def main(check_fns):
    import argparse, traceback
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    fn, level = check_fns(a.pid)
    c = Check(a.pid, "thorough" if a.tier == "thorough" else "quick", a.seed)
    try:
        try:
            fn(c)
        except Violation as v:
            d = os.path.join(VERIF, "evidence", "replay", a.pid)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            with open(os.path.join(d, "README.txt"), "w") as f:
                f.write("property %s seed %d tier %s\n%s\nre-run: VERIF_SEED=%d VERIF_TIER=%s python3 check.py %s\n" %
                        (a.pid, a.seed, c.tier, v.what, a.seed, c.tier, a.pid))
            for n, t in v.files.items():
                with open(os.path.join(d, n), "w", encoding="utf-8") as f:
                    f.write(t)
            c.evidence(level, 1)
            print(v.what)
            print("VIOLATION property=%s replay=%s" % (a.pid, d), flush=True)
            return 1
        c.evidence(level, 0)
        print("OK property=%s traces=%d events=%d states=%d wall=%.1fs" % (
            a.pid, c.cov["traces_validated_against_impl"], c.cov["events_validated"], c.cov["states"],
            time.time() - c.t0))
        return 0
    except MachineryError as e:
        print("MACHINERY-ERROR %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 3
    finally:
        c.cleanup()
