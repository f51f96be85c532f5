"""Infrastructure of the checks: build, run the harness, run TLC, evidence, verdicts."""
import json, os, random, re, shutil, signal, subprocess, sys, time, resource

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
TARGET = os.path.join(BUILD, "target")
REPO = "/repo"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    """The machinery (not the code under test) failed: exit 2."""


class Violation(Exception):
    def __init__(self, msg, replay):
        super().__init__(msg)
        self.replay = replay


def log(*a):
    print("#", *a, flush=True)


def cargo_env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             PYO3_PYTHON="/usr/bin/python3", CARGO_TARGET_DIR=TARGET, RUST_BACKTRACE="0",
             CARGO_TERM_COLOR="never")
    e.pop("RUSTFLAGS", None)
    return e


def cargo_build(crate_dir, args=(), target=TARGET):
    """Build a crate of /verif against /repo's working tree."""
    os.makedirs(target, exist_ok=True)
    lock = os.path.join(crate_dir, "Cargo.lock")
    if crate_dir.startswith(VERIF):
        # same dependency versions as /repo; only what is in the offline cache
        lk = open(os.path.join(REPO, "Cargo.lock")).read()
        src = lk + open(os.path.join(crate_dir, "Cargo.toml")).read()
        stamp = os.path.join(BUILD, os.path.basename(crate_dir) + ".lock.src")
        if not os.path.exists(lock) or not os.path.exists(stamp) or open(stamp).read() != src:
            open(lock, "w").write(lk)
            open(stamp, "w").write(src)
    r = subprocess.run(["cargo", "build", "--offline", "--target-dir", target, *args], cwd=crate_dir, env=cargo_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("build failed in %s\n%s" % (crate_dir, r.stdout[-6000:]))


def build_vh(feature, copy_to=None):
    """The harness with the case kinds of one group of properties."""
    import fcntl
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        cargo_build(os.path.join(VERIF, "harness"), ("--features", feature))
        if copy_to:
            shutil.copy2(os.path.join(TARGET, "debug", "vh"), copy_to)


class Ctx:
    """One run of one check."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.rng = random.Random("%s-%s" % (pid, seed))
        self.work = os.path.join(BUILD, "work", "%s-%d" % (pid, os.getpid()))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.validated = 0
        self.models, self.traces, self.samples, self.notes = [], [], [], {}
        self.violations = []

    def size(self, quick, thorough):
        return quick if self.quick else thorough

    # ---------------------------------------------------------------- harness
    def harness(self, feature):
        exe = os.path.join(self.work, "vh")
        build_vh(feature, exe)
        return exe

    def mixed(self, cases):
        """in any order: what one case leaves behind in the process meets every kind of case"""
        cases = list(cases)
        random.Random(self.seed).shuffle(cases)
        return cases

    def run_cases(self, exe, cases, name, secs=20, args=()):
        """Execute the cases with the harness; one record per case."""
        cf, of = (os.path.join(self.work, name + s) for s in (".cases", ".out"))
        cases = self.mixed(cases)
        with open(cf, "w") as f:
            for i, c in enumerate(cases):
                c["id"] = i
                f.write(json.dumps(c, separators=(",", ":")) + "\n")
        open(of, "w").close()
        start, bad = 0, 0
        while start < len(cases):
            def lim():
                resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            r = subprocess.run([exe, cf, of, str(start), str(secs), *args], stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, text=True, preexec_fn=lim, cwd=self.work)
            n = sum(1 for _ in open(of))
            if r.returncode == 0:
                if n != len(cases):
                    raise ToolError("harness stopped after %d of %d cases" % (n, len(cases)))
                break
            if r.returncode == 4 or "HARNESS-ERROR" in r.stderr:
                raise ToolError("harness error: " + r.stderr[-2000:])
            # hang (3) or death by a signal, in case n
            c = dict(cases[n], ev=[], outcome="hang" if r.returncode == 3 else "abort",
                     msg=r.stderr[-300:])
            with open(of, "a") as f:
                f.write(json.dumps(c, separators=(",", ":")) + "\n")
            start, bad = n + 1, bad + 1
            if bad >= 3:
                break
        return [json.loads(x) for x in open(of)], of

    # -------------------------------------------------------------------- TLC
    def tlc(self, module, cfg, workers=8, timeout=800, env=None, extra=(), heap="6g", stack="64m"):
        meta = os.path.join(self.work, "tlc")
        shutil.rmtree(meta, ignore_errors=True)
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss" + stack, "-Djava.io.tmpdir=" + self.work, "-cp", JAR, "tlc2.TLC",
               "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers),
               "-config", os.path.join(SPEC, cfg + ".cfg"), *extra, os.path.join(SPEC, module + ".tla")]
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired as x:
            raise ToolError("TLC timeout on %s/%s" % (module, cfg))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        out = r.stdout
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        return r.returncode, out, gen, dist, time.time() - t

    def model(self, module, cfg, min_states=2, **kw):
        """Exhaustive check of a design model; any failure is an error of the machinery."""
        rc, out, gen, dist, dt = self.tlc(module, cfg, **kw)
        if rc != 0 or "No error has been found" not in out:
            raise ToolError("design model %s/%s failed:\n%s" % (module, cfg, out[-5000:]))
        if dist < min_states:
            raise ToolError("design model %s/%s is vacuous: %d states" % (module, cfg, dist))
        self.states += dist
        self.transitions += gen
        self.models.append({"module": module, "config": cfg, "states": dist, "transitions": gen,
                            "seconds": round(dt, 1)})
        log("model", module, cfg, "states", dist, "transitions", gen, "%.1fs" % dt)
        return out

    def generate(self, module, cfg, **kw):
        """Scripts printed by a generator module (JSON values)."""
        kw.setdefault("workers", 1)
        out = self.model(module, cfg, **kw)
        res = []
        for line in out.splitlines():
            if line.startswith('"[') or line.startswith('"{'):
                res.append(json.loads(json.loads(line)))
        if not res:
            raise ToolError("generator %s printed nothing" % module)
        return res

    def validate(self, module, recs, name, cfg="Trace", chunk=4000, env=None, need=(), **kw):
        """Trace validation: every record must be a behaviour of the trace spec."""
        if not recs:
            raise ToolError("no records to validate")
        ops = {}
        for r in recs:
            for e in r.get("ev", []):
                k = e["op"] if isinstance(e, dict) and "op" in e else "?"
                ops[k] = ops.get(k, 0) + 1
        oks = sum(1 for r in recs if r.get("outcome") == "ok")
        nstates = 0
        dt = 0
        for lo in range(0, len(recs), chunk):
            part = recs[lo:lo + chunk]
            tf = os.path.join(self.work, name + ".trace")
            with open(tf, "w") as f:
                for r in part:
                    f.write(json.dumps(r, separators=(",", ":")) + "\n")
            en = {"TRACE": tf}
            en.update(env or {})
            rc, out, gen, dist, d = self.tlc(module, cfg, env=en, **kw)
            dt += d
            nstates += dist
            self.states += dist
            self.transitions += gen
            if rc == 0 and "No error has been found" in out:
                if dist < len(part):
                    raise ToolError("trace spec %s explored %d states for %d records" % (module, dist, len(part)))
                continue
            # which record?
            cs = re.findall(r"^/\\ c = (\d+)", out, re.M)
            ls = re.findall(r"^/\\ l = (\d+)", out, re.M)
            fatal = re.search(r"OutOfMemory|StackOverflow|Parsing or semantic|java\.io|ConfigFileException", out)
            if not cs or fatal:
                raise ToolError("TLC failed on %s:\n%s" % (module, out[-5000:]))
            c, l = int(cs[-1]) - 1, int(ls[-1]) if ls else 0
            rec = part[c]
            kind = "rejected" if "Deadlock reached" in out else "not evaluable against the specification"
            evs = rec.get("ev", [])
            at = evs[l - 1] if 0 < l <= len(evs) else None
            m = re.search(r"^Error: (.*)$", out, re.M)
            rep = self.save_replay(name, module, rec, l, at, out)
            msg = "%s: record %s (%s) %s at step %d of %d, outcome %s%s: %s" % (
                module, rec.get("id"), name, kind, l, len(evs), rec.get("outcome"),
                " (" + str(rec.get("msg"))[:200] + ")" if rec.get("outcome") != "ok" else "",
                json.dumps(at)[:600])
            raise Violation(msg, rep)
        for op in need:
            if not ops.get(op):
                raise ToolError("vacuous: no %s event in %s" % (op, name))
        self.validated += len(recs)
        self.traces.append({"trace_spec": module, "batch": name, "records": len(recs), "outcome_ok": oks,
                            "events": ops, "tlc_states": nstates, "seconds": round(dt, 1)})
        log("trace", module, name, "records", len(recs), "events", sum(ops.values()), "states", nstates, "%.1fs" % dt)
        if len(self.samples) < 4:
            r = min(recs[: min(len(recs), 50)], key=lambda r: abs(len(json.dumps(r)) - 500))
            self.samples.append(json.loads(json.dumps(r)[:3000]) if len(json.dumps(r)) <= 3000 else {"id": r.get("id"), "note": "long record", "head": json.dumps(r)[:600]})

    def save_replay(self, name, module, rec, l, at, out):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s-%s.json" % (self.pid, name, rec.get("id")))
        i = out.find("Error:")
        with open(p, "w") as f:
            json.dump({"property": self.pid, "trace_spec": module, "batch": name, "position": l, "event": at,
                       "record": rec, "tlc": out[i:i + 4000]}, f, indent=1)
        return p

    # --------------------------------------------------------------- evidence
    def evidence(self, level, extra=None):
        ev = {"property": self.pid, "tier": "quick" if self.quick else "thorough", "seed": self.seed,
              "level": level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.validated,
                           "samples": self.samples[:4] or ["no record was validated"],
                           "design_models": self.models, "trace_batches": self.traces, **self.notes},
              "assumptions": extra or [],
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)
