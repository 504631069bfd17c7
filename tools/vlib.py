import concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")

class ToolError(Exception): pass
class Slow(Exception): pass
class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what); self.replay = replay

def java_env():
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    return e

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class Tlc:
    """Result of one TLC run"""
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        m = re.search(r'"CONSUMED", (\d+), (\d+)', out)
        self.consumed = (int(m.group(1)), int(m.group(2))) if m else None
        flat = re.sub(r"\s*\n\s+", " ", out)
        self.rejects = re.findall(r'<<\s*"REJECT",\s*(\d+),\s*"(\w+)",\s*(.*)', flat)

def run_tlc(module, cfg, env=None, workers=1, meta=None, timeout=600, heap="3g", extra=()):
    meta = meta or os.path.join(BUILD, "meta", "%s-%d-%f" % (module, os.getpid(), time.time()))
    os.makedirs(meta, exist_ok=True)
    e = java_env(); e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC" if workers != 1 else "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss64m", "-cp", JAR, "tlc2.TLC", "-workers", str(workers),
           "-noGenerateSpecTE", "-metadir", meta, "-config", cfg, *extra, module + ".tla"]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return Tlc(p.returncode, p.stdout, time.time() - t0)

def repo_hash():
    h = hashlib.sha256()
    for root in (REPO + "/arche_tape", REPO + "/untyped_vec", VERIF + "/harness"):
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock")):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, root).encode() + b"\0" + open(p, "rb").read() + b"\0")
    for f in ("Cargo.toml", "Cargo.lock", "rust-toolchain", "rust-toolchain.toml"):
        p = os.path.join(REPO, f)
        if os.path.exists(p): h.update(open(p, "rb").read())
    return h.hexdigest()[:16]

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.dir = os.path.join(BUILD, "run", prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.states = self.transitions = self.traces = 0
        self.cov, self.samples, self.notes, self.violations, self.assumptions = {}, [], [], [], []
        self.exhaustive = None

    def note(self, s): self.notes.append(s)
    def count(self, key, n): self.cov[key] = self.cov.get(key, 0) + n

    def build(self, ):
        t = os.path.join(BUILD, "t-" + repo_hash())
        self.bin = os.path.join(t, "debug", "harness")
        env = dict(os.environ, RUSTUP_TOOLCHAIN="nightly", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=t, CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
                   RUSTFLAGS="-Awarnings")
        env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
        for k in list(env):
            if k.startswith("CARGO_PROFILE") or k == "CARGO_ENCODED_RUSTFLAGS": env.pop(k)
        # a debug build, which watches its own arithmetic, and one that is without such checks as users' builds are
        self.plain = os.path.join(t, "plain", "harness")
        ps = [subprocess.Popen(["cargo", "build", "--offline", "--manifest-path", VERIF + "/harness/Cargo.toml", "--profile", x], env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True) for x in ("dev", "plain")]
        for p in ps:
            out = p.communicate()[0]
            if p.returncode != 0:
                raise ToolError("harness does not build:\n" + out[-2500:])
        os.utime(t)
        for old in sorted(glob.glob(os.path.join(BUILD, "t-*")), key=os.path.getmtime)[:-3]:
            shutil.rmtree(old, ignore_errors=True)

    def keep(self, *paths):
        """Copies what reproduces a violation to a place that outlives the run; returns the path of the first"""
        d = os.path.join(BUILD, "replays", self.prop)
        os.makedirs(d, exist_ok=True)
        out = []
        for p in paths:
            q = os.path.join(d, os.path.basename(p))
            if os.path.exists(p):
                shutil.copy(p, q)
            out.append(q)
        return out[0]

    def harness(self, args, trace, timeout=120, big=False):
        """Runs the driver; a crash, abort or hang of the code under test is a violation. A big run that takes too long is
        only not judged: code may well be slow with millions of entities, and small runs would hang too"""
        env = dict(os.environ, RUST_BACKTRACE="0")
        m = re.search(r"(\d+)(?:-(\d+))?\.\w+$", os.path.basename(trace))
        bin = self.plain if m and (int(m.group(1)) + int(m.group(2) or 0)) % 4 == 3 else self.bin
        try:
            p = subprocess.run([bin] + [str(a) for a in args], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, text=True, errors="replace")
            rc, out, err = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired as x:
            rc, out, err = "hang", (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or ""), ""
        if rc == 0:
            return out
        if rc == "hang" and big:
            raise Slow("harness %s did not end within %d s and was not judged" % (" ".join(map(str, args)), timeout))
        if rc == 2 and "unknown subcommand" in err:
            raise ToolError(err)
        if rc == 3:
            # the driver itself found a disagreement with the walk it replays
            rep = self.keep_text("%s.walk.txt" % os.path.basename(trace), "harness %s\n%s\n%s" % (" ".join(map(str, args)), out[-20000:], err[-4000:]))
            raise Violation("replay of a specification walk disagrees: " + (out.strip().splitlines() or ["?"])[-1][:400], rep)
        pend = trace + ".pending"
        op = open(pend).read().strip() if os.path.exists(pend) else "?"
        rep = self.keep(trace, pend)
        open(rep + ".crash", "w").write("harness %s\nended with %s during: %s\n%s" % (" ".join(map(str, args)), rc, op, err[-4000:]))
        raise Violation("the code under test ended the process (%s) during: %s %s" % (rc, op[:300], err.strip()[-300:]), rep)

    def keep_text(self, name, text):
        d = os.path.join(BUILD, "replays", self.prop)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, name), "w").write(text)
        return os.path.join(d, name)

    def judge(self, module, trace, env, timeout=600, heap="3g"):
        """Trace validation. Returns the Tlc result; raises Violation when the specification rejects the trace"""
        r = run_tlc(module, module + ".cfg", dict(env, TRACE=trace), workers=1, timeout=timeout, heap=heap)
        if r.consumed and r.consumed[0] == r.consumed[1] and r.rc == 0:
            return r
        if r.consumed and r.consumed[0] < r.consumed[1]:
            n = r.consumed[0] + 1
        elif r.rejects:
            n = int(r.rejects[0][0])     # the history has left the specification and TLC cannot follow it further
        else:
            open(os.path.join(self.dir, "tlc-error.txt"), "w").write(r.out)
            raise ToolError("TLC failed on %s\n%s" % (trace, r.out[-3000:]))
        lines = open(trace).read().splitlines()
        start = n - 1
        while start > 0 and '"op":"world"' not in lines[start]: start -= 1
        why = [x for x in r.rejects if int(x[0]) == n] or r.rejects[-1:]
        ev = lines[n - 1] if n <= len(lines) else "?"
        rep = self.keep_text(os.path.basename(trace).replace(".ndjson", ".rejected.ndjson"), "\n".join(lines[start:n]) + "\n")
        open(rep + ".why", "w").write("%s rejects event %d\n%s\n%s\n" % (module, n, ev, "\n".join(str(x) for x in why)))
        raise Violation("%s rejects event %d: %s because %s" % (module, n, ev[:300], "; ".join("%s %s" % (x[1], x[2][:200]) for x in why) or "no action explains it"), rep)

    def parallel(self, jobs, workers=8):
        """Runs thunks; the first violation wins, tool errors only count without one"""
        viol, errs, res = [], [], []
        with concurrent.futures.ThreadPoolExecutor(workers) as ex:
            for f in [ex.submit(j) for j in jobs]:
                try: res.append(f.result())
                except Violation as v: viol.append(v)
                except Slow as x: self.note(str(x))
                except Exception as e: errs.append(e)
        if viol:
            self.violations.extend(viol[:1])
            self.note("%d of %d shards reported a violation" % (len(viol), len(jobs)))
            return res
        if errs: raise errs[0]
        return res

    def model(self, module, cfg, workers=4, timeout=800, heap="8g", env=None, expect_ok=True):
        """Exhaustive check of a specification. It does not depend on the code: an error is a defect of the specification"""
        r = run_tlc(module, cfg, env, workers=workers, timeout=timeout, heap=heap)
        if "No error has been found" not in r.out:
            open(os.path.join(self.dir, "model-error.txt"), "w").write(r.out)
            raise ToolError("model %s %s: %s" % (module, cfg, r.out[-3000:]))
        self.states += r.distinct; self.transitions += r.generated
        self.cov["model %s" % cfg] = {"distinct_states": r.distinct, "transitions": r.generated}
        return r

    def proof(self, module, needs=(), timeout=1800):
        """A proof about a specification, checked by TLAPS"""
        d = os.path.join(self.dir, "proof-" + module)
        os.makedirs(d, exist_ok=True)
        shutil.copy(VERIF + "/spec/proof/%s.tla" % module, d)
        for m in needs: shutil.copy(VERIF + "/spec/%s.tla" % m, d)
        p = subprocess.run(["tlapm", "--cleanfp", "--threads", "4", "--stretch", "4", module + ".tla"], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        m = re.search(r"All (\d+) obligations? proved", p.stdout)
        if p.returncode != 0 or not m: raise ToolError("proof %s: %s" % (module, p.stdout[-3000:]))
        self.cov["proof %s" % module] = {"obligations_proved": int(m.group(1))}

    def summary(self):
        return {"states": self.states, "transitions": self.transitions, "traces": self.traces, **{k: v for k, v in self.cov.items() if isinstance(v, int)}}

    def evidence(self, wall):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces, "samples": self.samples[:6]}
        cov.update(self.cov)
        cov["notes"] = self.notes
        if self.exhaustive is not None: cov["exhaustive_walks"] = self.exhaustive
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(wall, 1), "violations": len(self.violations)}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        json.dump(ev, open(VERIF + "/evidence/%s.json" % self.prop, "w"), indent=1)
