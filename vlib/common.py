"""Shared machinery of the checks: run drivers, run TLC, judge, report.

A check is a module checks/<ID>.py with  LEVEL, run(ctx).  It adds work through
ctx.trace_job / ctx.model and reports through ctx.violation.  Outcomes:
  exit 0  property held on everything explored
  exit 1  one VIOLATION line (only for a rejection that a re-run repeated)
  exit 2  the check itself could not do its work (build failure, TLC failure)
"""
import argparse, hashlib, importlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor
from . import build as B

VERIF = B.VERIF
SPECS = os.path.join(VERIF, "specs")
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4

class CheckError(Exception):
    """The check failed to work; says nothing about the property."""

def log(*a):
    print(*a, file=sys.stderr, flush=True)

class TlcResult:
    __slots__ = ("ok", "rc", "out", "states", "distinct", "diameter", "mismatch", "wall", "error")

def run_tlc(spec, cfg=None, env=None, workers=1, heap="2g", timeout=600, extra=(), meta=None):
    r = run_tlc_once(spec, cfg, env, workers, heap, timeout, extra, meta)
    if r.error and "StackOverflowError" in r.out:      # deep recursion is no verdict
        r = run_tlc_once(spec, cfg, env, workers, heap, timeout, extra, meta, "900m")
    return r

def run_tlc_once(spec, cfg, env, workers, heap, timeout, extra, meta, stack="64m"):
    """Run TLC on specs/<spec>.tla.  ok: no error.  error=None: a clean verdict."""
    t0 = time.time()
    md = tempfile.mkdtemp(prefix="tlc", dir=meta)
    cmd = ["java", "-XX:+UseParallelGC" if workers != 1 else "-XX:+UseSerialGC", f"-Xmx{heap}", f"-Xss{stack}", "-XX:TieredStopAtLevel=4",
           "-cp", TLA_CP, "tlc2.TLC", "-noGenerateSpecTE", "-deadlock" if False else "-cleanup", "-workers", str(workers),
           "-metadir", md, *extra]
    if cfg: cmd += ["-config", os.path.join(SPECS, cfg)]
    cmd += [os.path.join(SPECS, spec + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    r = TlcResult(); r.mismatch = []; r.error = None
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=SPECS)
        r.rc, r.out = p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired as x:
        r.rc, r.out = -1, (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")
        r.error = "TLC timed out"
    finally:
        shutil.rmtree(md, ignore_errors=True)
    r.wall = time.time() - t0
    m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", r.out)
    r.states, r.distinct = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
    m = re.findall(r"depth of the complete state graph search is (\d+)", r.out)
    r.diameter = int(m[-1]) if m else 0
    # PrintT output of <<"MISMATCH", ...>>, possibly over several lines
    for mm in re.finditer(r'<<\s*"MISMATCH".*?>>\s*$(?=\n\S|\n?\Z)', r.out, re.S | re.M):
        r.mismatch.append(mm.group(0))
    r.ok = r.rc == 0
    if not r.ok and r.error is None:
        # 10..13: assumption / deadlock / safety / liveness violations, postcondition false; others are failures of TLC
        if r.rc in (10, 11, 12, 13): pass
        elif r.mismatch: pass
        else: r.error = f"TLC exit {r.rc}"
    return r

class Ctx:
    def __init__(self, pid, tier, seed, level):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix=f"vp_{pid}_", dir="/tmp")
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "trace_events": 0, "models": []}
        self.assumptions = []
        self.violations = []
        self.known = []
        self.known_hit = set()
        self.lock = threading.Lock()
        kf = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(kf):
            self.known = [k for k in json.load(open(kf)).get("findings", []) if k["property"] == pid]

    # -- build ---------------------------------------------------------------
    def build(self, parts=("core", "filters"), hooks=False):
        self.libdir = B.build(parts, hooks)
        return self.libdir
    def driver(self, name, libs=("core",), extra=()):
        return B.build_driver(name, self.libdir, libs=libs, extra=extra)

    def plugin(self, name):
        return B.build_plugin(name, self.libdir)

    # -- drivers ---------------------------------------------------------------
    def run(self, cmd, timeout=120, env=None, stdin=None, cwd=None):
        e = dict(os.environ); e.update(env or {})
        class R: pass
        r = R()
        t = time.time()
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                             env=e, cwd=cwd or self.tmp, start_new_session=True)
        try:
            so, se = p.communicate(stdin, timeout=timeout)
            r.timeout = False
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            so, se = p.communicate()
            r.timeout = True
        r.rc, r.stdout, r.stderr = p.returncode, so, se
        r.wall = time.time() - t
        return r

    def drive(self, cmd, trace, timeout=120, env=None):
        """Run a trace-writing driver; a crash or hang that a second run repeats
        is a violation, one that does not is retried into a clean trace.
        Returns True when the trace is complete."""
        bad = []
        for attempt in range(3):
            r = self.run([str(c) for c in cmd], timeout=timeout, env=env)
            if r.rc == 0 and not r.timeout:
                return True
            bad.append((r, open(trace, "rb").read()[-3000:] if os.path.exists(trace) else b""))
            if len(bad) >= 2 and attempt >= 1:
                break
        r, tail = bad[-1]
        what = "hang (watchdog)" if r.timeout or r.rc == 97 else f"driver ended with {r.rc}"
        self.violation(f"{what}: {' '.join(map(str, cmd))}\nstderr: {r.stderr[-2500:].decode(errors='replace')}\ntrace tail: {tail.decode(errors='replace')}")
        return False

    # -- TLC -------------------------------------------------------------------
    def model(self, spec, cfg, workers=None, timeout=800, extra=(), heap="4g", min_states=2, expect_fail=None):
        """Exhaustive check of a design model.  Failure is a failure of the check
        (the model does not depend on the code)."""
        r = run_tlc(spec, cfg, workers=workers or NCPU, timeout=timeout, extra=extra, heap=heap)
        if expect_fail:
            if r.ok or expect_fail not in r.out:
                raise CheckError(f"model {cfg} was expected to fail with {expect_fail}\n{r.out[-3000:]}")
        elif not r.ok:
            raise CheckError(f"model {spec}/{cfg} failed (rc {r.rc})\n{r.out[-5000:]}")
        if r.distinct < min_states:
            raise CheckError(f"model {spec}/{cfg}: only {r.distinct} states\n{r.out[-2000:]}")
        with self.lock:
            self.cov["states"] += r.distinct
            self.cov["transitions"] += r.states
            self.cov["models"].append({"spec": spec, "cfg": cfg, "distinct": r.distinct, "generated": r.states, "depth": r.diameter, "wall_s": round(r.wall, 1)})
        log(f"model {cfg}: {r.distinct} distinct / {r.states} generated, {r.wall:.1f}s")
        return r

    def tlc_trace(self, spec, trace, cfg=None, env=None, timeout=600, heap="3g", sample=True):
        """Validate one ndjson trace with specs/<spec>.tla; returns True if accepted."""
        e = {"TRACE": trace}; e.update(env or {})
        n = sum(1 for _ in open(trace, "rb"))
        if n == 0:
            raise CheckError(f"{trace}: empty trace")
        r = run_tlc(spec, cfg, env=e, timeout=timeout, heap=heap)
        if r.error:
            r2 = run_tlc(spec, cfg, env=e, timeout=timeout, heap=heap)
            if r2.error:
                raise CheckError(f"TLC could not evaluate {trace} with {spec}: {r2.error}\n{r2.out[-6000:]}")
            r = r2
        with self.lock:
            self.cov["states"] += r.distinct
            self.cov["transitions"] += max(0, r.states - 1)
            self.cov["trace_events"] += n
        if not r.ok:
            r2 = run_tlc(spec, cfg, env=e, timeout=timeout, heap=heap)
            if r2.ok or r2.error:
                raise CheckError(f"rejection of {trace} did not repeat\n{r2.out[-3000:]}")
            return False, r2
        with self.lock:
            self.cov["traces_validated_against_impl"] += 1
            if sample and len(self.cov["samples"]) < 3:
                with open(trace) as f:
                    ls = [next(f, "").strip()[:400] for _ in range(12)]
                self.cov["samples"].append({"trace": os.path.basename(trace), "events": n, "first": [x for x in ls if x]})
        return True, r

    def trace_job(self, spec, cmd, name, cfg=None, env=None, timeout=120, tlc_timeout=600, denv=None, confirm=True, split=0):
        """driver -> trace file (passed as last argument) -> TLC."""
        if len(self.violations) >= 3: return False      # enough to report
        tr = os.path.join(self.tmp, name + ".ndjson")
        c = [str(x) for x in cmd] + [tr]
        if not self.drive(c, tr, timeout=timeout, env=denv):
            return False
        ok, r = self.tlc_trace(spec, tr, cfg=cfg, env=env, timeout=tlc_timeout)
        if ok:
            os.remove(tr)
            return True
        if confirm:
            # sequential drivers are deterministic: the re-run must be rejected as well
            tr2 = os.path.join(self.tmp, name + "_again.ndjson")
            c2 = c[:-1] + [tr2]
            if not self.drive(c2, tr2, timeout=timeout, env=denv):
                return False
            ok2, r2 = self.tlc_trace(spec, tr2, cfg=cfg, env=env, timeout=tlc_timeout)
            if ok2:
                raise CheckError(f"{name}: rejection did not repeat on a re-run\n" + "\n".join(r.mismatch)[:3000])
        self.reject(spec, tr, r, c)
        return False

    def reject(self, spec, trace, r, cmd=None):
        mm = "\n".join(r.mismatch) or r.out[-4000:]
        m = re.search(r'"MISMATCH",\s*(\d+)', mm)
        ctxl = ""
        if m:
            k = int(m.group(1))
            with open(trace) as f:
                ls = f.read().split("\n")
            ctxl = "\n".join(f"{i+1}: {ls[i][:1500]}" for i in range(max(0, k - 12), min(len(ls), k)))
        self.violation(f"trace rejected by {spec}\n{mm[:6000]}\n--- events up to the rejected one\n{ctxl}\n--- driver: {' '.join(cmd) if cmd else '?'}", [trace])

    def parallel(self, jobs, n=None):
        """jobs: list of thunks; exceptions propagate after all are done."""
        errs = []
        def w(j):
            try:
                return j()
            except Exception as x:
                errs.append(x)
                return None
        with ThreadPoolExecutor(n or NCPU) as ex:
            res = list(ex.map(w, jobs))
        if errs and not self.violations:
            raise errs[0]
        return res

    # -- reporting ---------------------------------------------------------------
    def violation(self, text, files=(), key=None):
        """key: stable identity of the failing input/site for known findings."""
        with self.lock:
            for k in self.known:
                if k.get("key") and key is not None and k["key"] == key:
                    self.known_hit.add(k["key"])
                    return
            self.violations.append((text, list(files), key))
        if len(self.violations) <= 2: log("REJECTED:", text[:2500])

    def sample(self, s):
        with self.lock:
            if len(self.cov["samples"]) < 5: self.cov["samples"].append(s)

    def finish(self):
        for k in self.known:
            if k["key"] in self.known_hit:
                print(f"KNOWN-FINDING: property={self.pid} {k['what']}")
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.pid + ".json")
        json.dump(ev, open(p + ".tmp", "w"), indent=1)
        os.replace(p + ".tmp", p)
        rc = 0
        if self.violations:
            d = os.path.join(VERIF, "evidence", "replay", self.pid)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            for i, (t, fs, _) in enumerate(self.violations[:8]):
                open(os.path.join(d, f"violation{i}.txt"), "w").write(t + "\n")
                for f in fs:
                    if os.path.exists(f) and os.path.getsize(f) < 50_000_000:
                        shutil.copy(f, d)
            print(f"VIOLATION property={self.pid} replay={d}", flush=True)
            rc = 1
        shutil.rmtree(self.tmp, ignore_errors=True)
        return rc

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    mod = importlib.import_module("checks." + a.id)
    ctx = Ctx(a.id, a.tier, a.seed, getattr(mod, "LEVEL", "model_checking"))
    ctx.assumptions += getattr(mod, "ASSUMPTIONS", [])
    try:
        mod.run(ctx)
        rc = ctx.finish()
    except (B.BuildError, CheckError) as x:
        log("CHECK ERROR:", x)
        if ctx.violations:
            rc = ctx.finish()
        else:
            shutil.rmtree(ctx.tmp, ignore_errors=True)
            rc = 2
    except Exception:
        traceback.print_exc()
        shutil.rmtree(ctx.tmp, ignore_errors=True)
        rc = 2
    log(f"{a.id} {a.tier}: exit {rc} in {time.time()-ctx.t0:.1f}s, {ctx.cov['traces_validated_against_impl']} traces / {ctx.cov['trace_events']} events")
    sys.stdout.flush()
    os._exit(rc)
