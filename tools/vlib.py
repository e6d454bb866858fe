"""Common machinery: scratch area, Go driver builds, TLC runs, trace validation, evidence.

Verdict policy: only a trace recorded from the real code and rejected by the TLA+ trace
specification (and reproduced) is a VIOLATION.  Everything else that goes wrong (build failure,
TLC evaluation error, design-model failure, vacuous validation) is an error exit (2)."""
import json, os, random, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
GOBIN = "/opt/veriftools/go1.27.3/bin"


class CheckError(Exception):
    pass


class TlcResult:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        if not m:   # simulation mode
            m = re.findall(r"The number of states generated: ([\d,]+)", out)
            self.generated = int(m[-1].replace(",", "")) if m else 0


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="gxv_%s_" % prop)
        self.spec = os.path.join(self.scratch, "spec")
        shutil.copytree(os.path.join(V, "spec"), self.spec)
        self.gopath = os.path.join(self.scratch, "gopath")
        src = os.path.join(self.gopath, "src")
        os.makedirs(os.path.join(src, "github.com", "vipally"))
        os.symlink(REPO, os.path.join(src, "github.com", "vipally", "gx"))
        os.symlink(os.path.join(V, "harness"), os.path.join(src, "gxverif"))
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.runs, self.assumptions, self.extra = [], [], [], {}
        self.exhaustive = None
        self.violation = None
        self.known = []
        self.n = 0

    quick = property(lambda s: s.tier == "quick")

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def tmp(self, name):
        self.n += 1
        return os.path.join(self.scratch, "%03d_%s" % (self.n, name))

    # ---------------------------------------------------------------- Go
    def goenv(self, gopath=None):
        e = dict(os.environ)
        for k in ("GOROOT", "GOOS", "GOARCH"):
            e.pop(k, None)
        e.update(PATH=GOBIN + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
                 GOPATH=gopath or self.gopath, GO111MODULE="off", GOTOOLCHAIN="local", GOPROXY="off",
                 GOFLAGS="", GOWORK="off", GOCACHE="/root/.cache/go-build", HOME="/root")
        return e

    def build(self, pkg, gopath=None, flags=()):
        out = self.tmp(os.path.basename(pkg) + ".bin")
        r = subprocess.run(["go", "build", "-o", out] + list(flags) + (["-race"] if os.environ.get("VERIF_RACE") else []) + [pkg], env=self.goenv(gopath),
                           cwd=self.scratch, capture_output=True, text=True, timeout=600)
        if r.returncode != 0:
            raise CheckError("go build %s failed:\n%s%s" % (pkg, r.stdout, r.stderr))
        return out

    def instrument(self, *pkgs):
        """Copies of the given packages of /repo in which shared accesses are scheduling points, as gxi/<pkg>."""
        tool = self.build("gxverif/instr")
        for p in pkgs:
            dst = os.path.join(self.gopath, "src", "gxi", p)
            r = subprocess.run([tool, os.path.join(self.gopath, "src", "github.com", "vipally", "gx", p), dst],
                               env=self.goenv(), cwd=self.scratch, capture_output=True, text=True, timeout=300)
            if r.returncode != 0:
                raise CheckError("instrumenting %s failed: %s" % (p, r.stderr[-2000:]))

    def plain(self, *pkgs):
        """A GOPATH in which gxi/<pkg> is the package as it is."""
        gp = self.tmp("plain")
        src = os.path.join(gp, "src")
        os.makedirs(os.path.join(src, "github.com", "vipally"))
        os.symlink(REPO, os.path.join(src, "github.com", "vipally", "gx"))
        os.symlink(os.path.join(V, "harness"), os.path.join(src, "gxverif"))
        for p in pkgs:
            dst = os.path.join(src, "gxi", p)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copytree(os.path.join(REPO, p), dst)
        return gp

    def explore(self, binary, jobs, what):
        """Run exploration jobs under the controlled scheduler; returns (traces, scripts) of distinct histories."""
        jf, of = self.tmp("jobs.ndjson"), self.tmp("hist.ndjson")
        with open(jf, "w") as f:
            for j in jobs:
                f.write(json.dumps(j) + "\n")
        t = time.time()
        r = subprocess.run([binary, "-explore", jf, "-eout", of], capture_output=True, text=True, errors="replace",
                           timeout=700, cwd=self.scratch)
        if r.returncode != 0:
            raise CheckError("exploration failed: " + r.stderr[-3000:])
        st = json.loads(r.stdout.strip().splitlines()[-1])
        traces, scripts = [], []
        with open(of) as f:
            for line in f:
                d = json.loads(line)
                traces.append(d["trace"])
                scripts.append(d["script"])
        os.unlink(of)
        st.update(kind="explore", what=what, wall_s=round(time.time() - t, 1))
        self.runs.append(st)
        self.log("explored %s: %d executions of %d programs (%d completely), %d distinct histories, %.1fs" %
                 (what, st["executions"], st["jobs"], st["complete"], st["histories"], st["wall_s"]))
        return traces, scripts

    # ---------------------------------------------------------------- TLC
    def cfg(self, text):
        p = os.path.join(self.spec, "gen%03d.cfg" % self.n)
        self.n += 1
        with open(p, "w") as f:
            f.write(text)
        return p

    def tlc(self, module, cfg, env=None, workers="auto", args=(), timeout=840, xmx="12g"):
        if "\n" in cfg or not cfg.endswith(".cfg"):
            cfg = self.cfg(cfg)
        elif not os.path.isabs(cfg):
            cfg = os.path.join(self.spec, cfg)
        meta = self.tmp("meta")
        os.makedirs(meta, exist_ok=True)
        cmd = ["java", "-Djava.io.tmpdir=" + meta, "-XX:+UseParallelGC", "-Xmx" + xmx, "-Xss512m", "-cp", JARS, "tlc2.TLC", "-nowarning",
               "-config", cfg, "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE"]
        cmd += list(args) + [os.path.join(self.spec, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=self.spec, env=e, capture_output=True, text=True, errors="replace",
                               timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s" % module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return TlcResult(r.returncode, r.stdout + r.stderr, time.time() - t)

    def design(self, module, cfg, what, args=(), workers="auto", min_states=2, timeout=840):
        """Model-check a design model; it must pass (independent of /repo)."""
        r = self.tlc(module, cfg, workers=workers, args=args, timeout=timeout)
        if r.rc != 0:
            raise CheckError("design model %s failed (rc %d):\n%s" % (module, r.rc, r.out[-4000:]))
        if r.distinct < min_states:
            raise CheckError("design model %s is vacuous: %d states" % (module, r.distinct))
        self.states += r.distinct
        self.transitions += r.generated
        self.runs.append(dict(kind="design", module=module, what=what, states=r.distinct,
                              transitions=r.generated, wall_s=round(r.wall, 1)))
        self.log("design %s: %d states, %d transitions, %.1fs" % (module, r.distinct, r.generated, r.wall))
        return r

    def gen(self, module, cfg, what, simulate=None, depth=None, prune=True, limit=None, timeout=840):
        """Behaviours of a generator spec (printed as JSON by the spec) -> scripts."""
        args = []
        if simulate:
            args = ["-simulate", "num=%d" % simulate, "-depth", str(depth), "-seed", str(self.seed * 7919 + 13)]
        r = self.tlc(module, cfg, workers=1, args=args, timeout=timeout)
        if r.rc != 0:
            raise CheckError("generator %s failed (rc %d):\n%s" % (module, r.rc, r.out[-4000:]))
        scripts = []
        for line in r.out.splitlines():
            if line.startswith('"[') or line.startswith('"{'):
                scripts.append(json.loads(json.loads(line)))
        if not scripts:
            raise CheckError("generator %s produced nothing:\n%s" % (module, r.out[-2000:]))
        n0 = len(scripts)
        if simulate:    # the last step of a random behaviour is printed once per candidate: keep one of them
            last = {}
            for s in scripts:
                last.setdefault(json.dumps(s[:-1]), []).append(s)
            scripts = [self.rng.choice(v) for v in last.values()]
        if prune:
            scripts = prune_prefixes(scripts)
        if limit and len(scripts) > limit:
            scripts = self.rng.sample(scripts, limit)
        self.states += r.distinct
        self.transitions += r.generated
        self.runs.append(dict(kind="generate", module=module, what=what, states=r.distinct,
                              transitions=r.generated, behaviours=n0, scripts=len(scripts),
                              mode="simulate" if simulate else "exhaustive", wall_s=round(r.wall, 1)))
        self.log("gen %s: %d behaviours -> %d scripts (%d states, %.1fs)" % (module, n0, len(scripts), r.distinct, r.wall))
        return scripts

    # ---------------------------------------------------------------- drive the real code
    env, as_user, cwd, groups = None, None, None, ()    # environment additions, uid, directory and further groups of the driver runs

    def popen_args(self):
        d = dict(cwd=self.cwd or self.scratch)
        if self.env:
            d["env"] = dict(os.environ, **self.env)
        if self.as_user is not None and os.geteuid() == 0:
            d.update(user=self.as_user, group=self.as_user, extra_groups=list(self.groups))
        return d

    def drive(self, binary, scripts, args=(), timeout=600):
        """Run scripts on the real code; returns list of traces (lists of events), one per script."""
        sf, of = self.tmp("scripts.ndjson"), self.tmp("traces.ndjson")
        with open(sf, "w") as f:
            for s in scripts:
                f.write(json.dumps(s, separators=(",", ":")) + "\n")
        traces, start, crashes = [], 0, 0
        while start < len(scripts):
            t = time.time()
            try:
                r = subprocess.run([binary, "-scripts", sf, "-out", of, "-from", str(start)] + list(args),
                                   capture_output=True, text=True, errors="replace", timeout=timeout, **self.popen_args())
                rc, err = r.returncode, r.stderr
            except subprocess.TimeoutExpired:
                rc, err = 99, "driver timeout"
            got = read_traces(of)
            traces += got
            start += len(got)
            if rc == 0 and start >= len(scripts):
                break
            if rc == 96:        # runaway script: its trace will be rejected; no need to go on
                break
            if rc == 3:
                raise CheckError("driver error: " + err[-2000:])
            if rc == 0:
                raise CheckError("driver stopped early: %d of %d" % (start, len(scripts)))
            # died inside script `start`: run it alone, streaming events
            tr = self.drive_alone(binary, scripts[start], args)
            traces.append(tr)
            start += 1
            if tr and tr[-1]["op"] in ("HANG", "CRASH"):
                break       # will be rejected; no need to go on
            crashes += 1
            if crashes >= 3:
                raise CheckError("driver died repeatedly, not reproducible: " + err[-500:])
        return traces

    def drive_alone(self, binary, script, args=()):
        """One script, events flushed one by one; a crash or hang becomes a final CRASH/HANG event."""
        sf, of = self.tmp("one.ndjson"), self.tmp("onetrace.ndjson")
        with open(sf, "w") as f:
            f.write(json.dumps(script) + "\n")
        try:
            r = subprocess.run([binary, "-scripts", sf, "-out", of, "-stream"] + list(args),
                               capture_output=True, text=True, errors="replace", timeout=120, **self.popen_args())
            rc, err = r.returncode, r.stderr
        except subprocess.TimeoutExpired:
            rc, err = 97, "timeout"
        tr = [json.loads(x) for x in open(of)] if os.path.exists(of) else []
        if rc == 3:
            raise CheckError("driver error: " + err[-2000:])
        if rc == 97:
            tr.append({"op": "HANG", "p": 2})
        elif rc != 0:
            if "out of memory" in err or "signal: killed" in err or rc < 0:
                if rc == -9:
                    raise CheckError("driver was killed")
            tr.append({"op": "CRASH", "p": 2, "why": err[:300]})
        return tr

    # ---------------------------------------------------------------- validate traces
    def validate(self, module, traces, scripts=None, binary=None, args=(), consts="", what="", spec_text=None,
                 chunk=400000, count=True):
        """TLC accepts or rejects every trace.  On rejection: reproduce, then record the violation."""
        if not traces:
            raise CheckError("no traces to validate for %s" % module)
        i = 0
        while i < len(traces):
            j, ev = i, 0
            while j < len(traces) and (ev == 0 or ev + len(traces[j]) + 1 <= chunk):
                ev += len(traces[j]) + 1
                j += 1
            bad = self._validate(module, traces[i:j], consts, what, count)
            if bad is not None:
                k, l, out = bad
                self._report(module, traces[i + k], scripts[i + k] if scripts else None, binary, args, consts, l, out,
                             scripts[:i + k + 1] if scripts else None)
                return False
            i = j
        return True

    def _validate(self, module, traces, consts, what, count=True):
        tf = self.tmp("val.ndjson")
        with open(tf, "w") as f:
            for t in traces:
                f.write(json.dumps(t, separators=(",", ":")) + "\n")
        cfg = "SPECIFICATION TraceSpec\nCHECK_DEADLOCK TRUE\n" + consts
        r = self.tlc(module, cfg, env={"TRACE_FILE": tf})
        os.unlink(tf)
        total = sum(len(t) + 1 for t in traces)
        if r.rc == 0:
            if r.distinct != total:
                raise CheckError("validation by %s is vacuous: %d states for %d expected" % (module, r.distinct, total))
            if count:
                self.states += r.distinct
                self.transitions += r.generated
                self.traces += len(traces)
                self.events += total - len(traces)
                self.runs.append(dict(kind="validate", module=module, what=what, traces=len(traces),
                                      events=total - len(traces), wall_s=round(r.wall, 1)))
                self.log("validate %s: %d traces, %d events accepted, %.1fs" % (module, len(traces), total - len(traces), r.wall))
            return None
        if "Deadlock reached" in r.out:
            trs = re.findall(r"^/\\ tr = (\d+)$", r.out, re.M)
            ls = re.findall(r"^/\\ l = (\d+)$", r.out, re.M)
            if trs and ls:
                return int(trs[-1]) - 1, int(ls[-1]), r.out
        errs = re.findall(r"^(?:Error|java\.|\tat ).*$", r.out, re.M)
        raise CheckError("TLC failed on %s (rc %d):\n%s\n%s" % (module, r.rc, "\n".join(errs[:20])[:3000], r.out[-2000:]))

    def _report(self, module, trace, script, binary, args, consts, l, out, batch=None):
        ev = trace[l - 1] if l <= len(trace) else None
        self.log("REJECTED by %s at event %d: %s" % (module, l, json.dumps(ev)[:400]))
        confirmed = False
        if binary is not None and script is not None:
            for _ in range(5):
                t2 = self.drive_alone(binary, script, args)
                bad = self._validate(module, [t2], consts, "confirm", count=False)
                if bad is not None:
                    confirmed, trace, l, out = True, t2, bad[1], bad[2]
                    ev = trace[l - 1] if l <= len(trace) else None
                    break
        before = None
        if not confirmed and batch and binary is not None:
            # not by itself: it depends on what the same process did before (earlier scripts, other objects)
            n, last = 1, False
            while not confirmed and not last:
                last = n >= len(batch)
                part = batch[-min(n, len(batch)):]
                t2 = self.drive(binary, part, args)
                bad = self._validate(module, [t2[-1]], consts, "confirm", count=False) if len(t2) == len(part) else None
                if bad is not None:
                    confirmed, trace, l, out = True, t2[-1], bad[1], bad[2]
                    ev = trace[l - 1] if l <= len(trace) else None
                    before = part[:-1]
                n *= 4
        if not confirmed:
            raise CheckError("rejected trace could not be reproduced: script %s" % json.dumps(script)[:500])
        self._replay(module, script, before, trace, l, out)

    def _replay(self, module, script, before, trace, l, out, together=None):
        ev = trace[l - 1] if l <= len(trace) else None
        d = os.path.join(V, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s_%s_%d.json" % (self.prop, self.tier, self.seed))
        m = re.findall(r"^State \d+:.*?(?=^State |\Z|^\d+ states|^The coverage)", out, re.M | re.S)
        with open(p, "w") as f:
            json.dump(dict(property=self.prop, spec=module, script=script, scripts_run_before_in_the_same_process=before, run_together=together, trace=trace[:l], rejected_event=ev,
                           rejected_at=l, last_spec_state=(m[-1][:3000] if m else out[-3000:]),
                           how="the real code produced this trace; the TLA+ trace spec has no step for the rejected event"),
                      f, indent=1)
        self.violation = p

    def check(self, module, binary, scripts, consts="", what="", args=(), timeout=600, together=0):
        """drive + validate; returns False on a violation. together: so many of the scripts also at the same time."""
        if self.violation:
            return False
        t = time.time()
        traces = self.drive(binary, scripts, args, timeout)
        self.log("drove %d scripts (%s), %.1fs" % (len(traces), what, time.time() - t))
        ok = self.validate(module, traces, scripts, binary, args, consts, what)
        if ok:
            if len(traces) < len(scripts):
                raise CheckError("driver crashed but traces were accepted")
            k = min(range(len(traces)), key=lambda i: abs(len(traces[i]) - 6))
            if len(self.samples) < 6:
                self.samples.append(dict(spec=module, what=what, script=clip(scripts[k]), trace=clip(traces[k][:8])))
            if together:
                ok = self.together(module, binary, scripts, consts, what, args, together)
        return ok

    def together(self, module, binary, scripts, consts="", what="", args=(), sample=400, rounds=None, par=8, timeout=300):
        """The same scripts at the same time in several goroutines, each with objects of its own: every distinct trace is validated."""
        if self.violation:
            return False
        sc = [s for s in scripts if len(json.dumps(s)) < 20000]
        if len(sc) > sample:
            sc = self.rng.sample(sc, sample)
        rounds = rounds or self.pick(20, 200)
        what += ", in %d goroutines at a time" % par
        t = time.time()
        got = self._together(binary, sc, args, par, rounds, timeout)
        self.log("drove %d scripts at least %d times (%s): %d distinct traces, %.1fs" % (len(sc), rounds, what, len(got), time.time() - t))
        bad = self._validate(module, [x[1] for x in got], consts, what)
        if bad is None:
            return True
        self.log("REJECTED by %s: %s" % (module, json.dumps(got[bad[0]][1][max(0, bad[1] - 1):bad[1]])[:400]))
        for _ in range(6):          # once more
            again = self._together(binary, sc, args, par, rounds * 2, timeout)
            bad2 = self._validate(module, [x[1] for x in again], consts, what, count=False)
            if bad2 is not None:
                k, l, out = bad2
                self._replay(module, sc[again[k][0]], None, again[k][1], l, out, dict(goroutines=par, rounds=rounds * 2, all_scripts=sc))
                return False
        raise CheckError("rejected trace could not be reproduced: script %s" % json.dumps(sc[got[bad[0]][0]])[:500])

    def _together(self, binary, sc, args, par, rounds, timeout):
        sf, of = self.tmp("par.ndjson"), self.tmp("partraces.ndjson")
        with open(sf, "w") as f:
            for s in sc:
                f.write(json.dumps(s, separators=(",", ":")) + "\n")
        why = ""
        for _ in range(2):
            try:
                r = subprocess.run([binary, "-scripts", sf, "-out", of, "-par", str(par), "-rounds", str(rounds), "-atleast", str(self.pick(5, 60))] + list(args),
                                   capture_output=True, text=True, errors="replace", timeout=timeout, **self.popen_args())
            except subprocess.TimeoutExpired:
                raise CheckError("parallel driver timeout")
            if r.returncode == 0:
                return [(x["i"], x["t"]) for x in map(json.loads, open(of))]
            if r.returncode == 3 or r.returncode == -9:
                raise CheckError("driver error: " + r.stderr[-2000:])
            why = r.stderr[:600]
        return [(0, [dict(op="HANG" if r.returncode == 97 else "CRASH", p=2, why=why)])]

    # ---------------------------------------------------------------- finish
    def finish(self, error=None):
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   events_validated=self.events, samples=self.samples, runs=self.runs)
        if self.exhaustive is not None:
            cov["exhaustive"] = self.exhaustive
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=1 if self.violation else 0)
        if error:
            ev["coverage"]["error"] = error[:2000]
        p = os.path.join(V, "evidence", self.prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)
        shutil.rmtree(self.scratch, ignore_errors=True)


def clip(x, n=700):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."


def read_traces(path):
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                if not line.endswith("\n"):
                    break
                out.append(json.loads(line))
        os.unlink(path)
    return out


def prune_prefixes(scripts):
    """Drop scripts that are a proper prefix of another one (its steps are replayed anyway)."""
    keys = sorted(set(json.dumps(s, separators=(",", ":"))[:-1] for s in scripts))
    out = []
    for i, k in enumerate(keys):
        if i + 1 < len(keys) and (keys[i + 1].startswith(k + ",") or k == "["):
            continue
        out.append(json.loads(k + "]"))
    return out


def run_check(prop, tier, fn):
    ctx = Ctx(prop, tier)
    try:
        fn(ctx)
    except CheckError as e:
        print("ERROR property=%s %s" % (prop, e))
        ctx.finish(str(e))
        return 2
    except Exception as e:
        import traceback
        traceback.print_exc()
        ctx.finish(repr(e))
        return 2
    for k in ctx.known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    ctx.finish()
    if ctx.violation:
        print("VIOLATION property=%s replay=%s" % (prop, ctx.violation))
        return 1
    ctx.log("OK: %d states, %d transitions, %d traces (%d events) validated" % (ctx.states, ctx.transitions, ctx.traces, ctx.events))
    return 0
