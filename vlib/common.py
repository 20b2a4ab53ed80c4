"""Shared runner: environment, evidence, known findings, verdicts.

A check module calls `Check(...)`, records solver obligations and violations on it and ends with
`finish()`.  Verdicts:  exit 0 = everything discharged; exit 1 = a replayed violation that is not a
listed finding; exit 2 = inconclusive / the machinery is at fault (never reported as success).
"""
from __future__ import annotations
import json, os, sys, time, types, traceback, hashlib, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("GOGGLES_PORT", "23090")
os.environ.setdefault("XLA_FLAGS", "--xla_cpu_multi_thread_eigen=false")
os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
sys.dont_write_bytecode = True
_SRC = os.path.join(REPO, "src")
if _SRC not in sys.path:
    sys.path.insert(0, _SRC)
_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)          # last: only z3 comes from there
import z3  # noqa: E402

TIER = os.environ.get("VERIF_TIER", "quick")
MAX_VIOLATIONS = 2
SHARD = tuple(int(x) for x in os.environ["VERIF_SHARD"].split("/")) if os.environ.get("VERIF_SHARD") else None
SEED = int(os.environ.get("VERIF_SEED", "1"))


class NullLogger:
    """Logging is not the subject of any property: every method has an empty body."""
    def __getattr__(self, n):
        return lambda *a, **k: None


def install_goggles_stub():
    """goggles (logging bus, YAML loader) replaced: null loggers, plain YAML loading."""
    if "goggles" in sys.modules and getattr(sys.modules["goggles"], "_vstub", False):
        return
    m = types.ModuleType("goggles")
    m._vstub = True
    m.get_logger = lambda *a, **k: NullLogger()
    m.GogglesLogger = NullLogger

    def load_configuration(path):
        try:
            import yaml
            with open(path) as f:
                return yaml.safe_load(f)
        except ImportError:
            from ruamel.yaml import YAML
            with open(path) as f:
                return YAML(typ="safe").load(f)
    m.load_configuration = load_configuration
    m.__getattr__ = lambda n: NullLogger() if not n.startswith("__") else (_ for _ in ()).throw(AttributeError(n))
    sys.modules["goggles"] = m


def repo_modules():
    return [m for n, m in list(sys.modules.items())
            if m is not None and (n == "synthpix" or n.startswith("synthpix."))]


class Inconclusive(Exception):
    pass


class Enough(BaseException):
    """two replayed violations are enough for one run"""


def fingerprint(*fns):
    """Source hash of the functions encoded on this run (reported in the evidence)."""
    import inspect
    out = []
    for f in fns:
        try:
            src = inspect.getsource(f)
        except Exception:
            src = repr(f)
        out.append(f"{getattr(f,'__module__','?')}.{getattr(f,'__qualname__',repr(f))}#{hashlib.sha1(src.encode()).hexdigest()[:10]}")
    return out


def _text(x):
    return x if isinstance(x, str) else "; ".join(map(str, x))


class Check:
    def __init__(self, prop, level="other", assumptions=(), functions=(), bounds="", outside=""):
        self.prop, self.level = prop, level
        self.tier, self.seed = TIER, SEED
        self.t0 = time.time()
        self.assumptions = list(assumptions)
        self.functions = list(functions)
        self.bounds, self.outside = bounds, outside
        self.obl = 0
        self.discharged = 0
        self.solver_s = 0.0
        self.max_query_s = 0.0
        self.witness = 0
        self.by = {}
        self.extra = {}
        self.samples = []
        self.viol = []
        self.known = []
        self.errors = []
        self.paths = 0
        self.fallback = None
        self.replays = 0
        d = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        self._load_known()

    # -------------------------------------------------------------- known findings
    def _load_known(self):
        self.known_keys = {}
        p = os.path.join(VERIF, "known_findings.jsonl")
        if os.path.exists(p):
            for line in open(p):
                line = line.strip()
                if not line:
                    continue
                e = json.loads(line)
                if e.get("status") == "known" and e["property"] == self.prop:
                    self.known_keys[e["key"]] = e
        self.known_hit = {}

    # -------------------------------------------------------------- obligations
    def note_query(self, name, dt, verdict):
        self.solver_s += dt
        self.max_query_s = max(self.max_query_s, dt)
        c = self.by.setdefault(name, {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "s": 0.0})
        c["queries"] += 1
        c[verdict] += 1
        c["s"] = round(c["s"] + dt, 3)

    def solve(self, name, constraints, timeout_s=120, tactic=None):
        """One satisfiability query: 'unsat' | 'sat' + model.  'unknown' -> second solver -> Inconclusive."""
        t = time.time()
        s = z3.Solver() if tactic is None else tactic.solver()
        s.set("timeout", int(timeout_s * 1000))
        s.add(*constraints)
        r = s.check()
        dt = time.time() - t
        v = str(r)
        self.note_query(name, dt, v)
        if v == "unknown":
            raise Inconclusive(f"{name}: solver answered unknown after {dt:.1f}s ({s.reason_unknown()})")
        return v, (s.model() if v == "sat" else None)

    def prove(self, name, assumptions, goal, on_cex, timeout_s=120, tactic=None, nice=()):
        """Discharge `assumptions => goal`.  On a counterexample call on_cex(model) which must replay it.

        `nice`: optional list of extra constraint lists tried in order to get a replay-friendly model."""
        self.obl += 1
        neg = z3.Not(goal) if not isinstance(goal, bool) else (z3.BoolVal(not goal))
        v, m = self.solve(name, list(assumptions) + [neg], timeout_s, tactic)
        if v == "unsat":
            self.discharged += 1
            return True
        last = None
        for extra in list(nice) + [[]]:
            try:
                if extra:
                    v2, m2 = self.solve(name + "/model", list(assumptions) + [neg] + list(extra), min(timeout_s, 30), tactic)
                    if v2 != "sat":
                        continue
                else:
                    m2 = m
            except Inconclusive:
                continue
            self.replays += 1
            last = on_cex(m2)
            if last:
                return False
        if self.fallback:                       # the solver refuted the goal; look for a reproducing input elsewhere
            for s in range(8):
                try:
                    if on_cex(self.fallback(s)):
                        return False
                except (Inconclusive, AttributeError):
                    break
        raise Inconclusive(f"{name}: counterexample did not reproduce on the real code")

    def reachable(self, name, constraints, timeout_s=60):
        """Vacuity witness: the assumptions must be satisfiable (twin whose assertion is False)."""
        v, m = self.solve(name, constraints, timeout_s)
        if v != "sat":
            raise Inconclusive(f"{name}: assumptions are unsatisfiable - vacuous harness")
        self.witness += 1
        return m

    # -------------------------------------------------------------- verdicts
    def violation(self, key, text, data=None):
        """Report a violation that HAS been replayed on the real code."""
        if SHARD:                       # a worker of a divided check: the parent reports
            self.viol.append((key, text, data))
            if len(self.viol) >= MAX_VIOLATIONS:
                raise Enough()
            return True
        if key in self.known_keys:
            if key not in self.known_hit:
                self.known_hit[key] = text
                print(f"KNOWN-FINDING: property={self.prop} {self.known_keys[key]['what']}", flush=True)
            return True
        n = len(self.viol) + 1
        path = os.path.join(VERIF, "evidence", "replays", f"{self.prop}-{n}.json")
        with open(path, "w") as f:
            json.dump({"property": self.prop, "key": key, "what": text, "counterexample": data,
                       "reproduce": f"cd /verif && ./run.sh {self.prop} {self.tier}"}, f, indent=1, default=str)
        self.viol.append((key, text))
        print(f"VIOLATION property={self.prop} replay={path}", flush=True)
        print(f"  {key}: {text}", flush=True)
        if len(self.viol) >= MAX_VIOLATIONS:
            raise Enough()
        return True

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def evidence(self):
        cov = {
            "explanation": (f"Solver-decided: {self.obl} obligations over the real code, {self.discharged} discharged (unsat), "
                            f"each for every value within the bounds. Bounds: {_text(self.bounds)} Outside: {_text(self.outside)}"),
            "functions_encoded": self.functions,
            "bounds": _text(self.bounds), "outside_the_claim": _text(self.outside),
            "obligations": self.obl, "discharged": self.discharged,
            "queries": self.by, "solver_s": round(self.solver_s, 2),
            "max_query_s": round(self.max_query_s, 2),
            "vacuity_witnesses": self.witness,
            "counterexamples_replayed": self.replays,
            "samples": self.samples or ["(none)"],
            "solver": f"z3 {z3.get_version_string()}",
        }
        if self.paths:
            cov["symbolic_paths"] = self.paths
        cov.update(self.extra)
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.viol))
        if self.known_hit:
            ev["coverage"]["known_findings_seen"] = list(self.known_hit)
        if self.errors:
            ev["coverage"]["errors"] = self.errors
        p = os.path.join(VERIF, "evidence", f"{self.prop}.json")
        tmp = p + ".tmp"
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, p)


COUNTS = ("obl", "discharged", "solver_s", "witness", "paths", "replays")


def divided(ck, n):
    """run the check in n processes, each exploring its share of the paths; merge what they report"""
    import subprocess, tempfile, shutil
    d = tempfile.mkdtemp(prefix="shard")
    procs = []
    try:
        for i in range(n):
            env = {**os.environ, "VERIF_SHARD": f"{i}/{n}", "VERIF_SHARD_OUT": os.path.join(d, f"{i}.json")}
            procs.append(subprocess.Popen([sys.executable, "-m", f"checks.{ck.prop}"], cwd=VERIF, env=env, stdout=open(os.path.join(d, f"{i}.log"), "w"), stderr=subprocess.STDOUT))
        left = set(range(n))
        results, bad = {}, []
        while left:
            time.sleep(0.1)
            for i in sorted(left):
                if procs[i].poll() is None:
                    continue
                left.discard(i)
                try:
                    results[i] = json.load(open(os.path.join(d, f"{i}.json")))
                except (OSError, ValueError):
                    bad.append(f"worker {i} ended without a result: {open(os.path.join(d, f'{i}.log')).read()[-800:]}")
                    continue
                if results[i]["viol"] or results[i]["errors"]:
                    for j in left:
                        procs[j].terminate()
                    for j in left:
                        procs[j].wait()
                    left = set()
                    break
        for i, r in sorted(results.items()):
            for k in COUNTS:
                if k != "witness" or i == 0:
                    setattr(ck, k, getattr(ck, k) + r[k])
            ck.max_query_s = max(ck.max_query_s, r["max_query_s"])
            for name, c in r["by"].items():
                t = ck.by.setdefault(name, dict.fromkeys(c, 0))
                for k in c:
                    t[k] = round(t[k] + c[k], 3)
            if i == 0:
                ck.bounds, ck.functions, ck.extra = r["bounds"], r["functions"], r["extra"]
                ck.samples = r["samples"]
            elif "programs" in r["extra"]:
                ck.extra.setdefault("programs", {}).update(r["extra"]["programs"])
        ck.extra["processes"] = n
        errors = [e for r in results.values() for e in r["errors"]] + bad
        seen = set()
        for r in results.values():
            for key, text, data in r["viol"]:
                if key not in seen:
                    seen.add(key)
                    ck.violation(key, text, data)
        if errors:
            raise Inconclusive(errors[0])
        if len(results) < n and not seen:
            raise Inconclusive("not every worker finished")
    finally:
        for p in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
        shutil.rmtree(d, ignore_errors=True)


def main(prop, body, shards=1, **kw):
    """Run a check body(ck) with uniform verdict handling; never returns."""
    ck = Check(prop, **kw)
    code = 2
    if SHARD:
        try:
            body(ck)
        except Enough:
            pass
        except Inconclusive as e:
            ck.errors.append(str(e))
        except Exception as e:
            traceback.print_exc()
            ck.errors.append(f"{e!r} {traceback.format_exc()[-600:]}")
        out = {k: getattr(ck, k) for k in COUNTS + ("max_query_s", "by", "bounds", "functions", "extra", "samples", "viol", "errors")}
        with open(os.environ["VERIF_SHARD_OUT"], "w") as f:
            json.dump(out, f, default=str)
        os._exit(0)
    if shards > 1 and body is not None:
        body = lambda ck: divided(ck, shards)
    try:
        body(ck)
        if ck.viol:
            code = 1
        elif ck.obl == 0 or ck.witness == 0:
            raise Inconclusive("no obligation or no vacuity witness: nothing was decided")
        else:
            code = 0
    except Enough:
        code = 1
    except Inconclusive as e:
        ck.errors.append(str(e))
        print(f"INCONCLUSIVE property={prop}: {e}", flush=True)
        code = 1 if ck.viol else 2
    except Exception as e:
        traceback.print_exc()
        ck.errors.append(repr(e))
        print(f"ERROR property={prop}: {e!r}", flush=True)
        code = 1 if ck.viol else 2
    try:
        ck.evidence()
    except Exception:
        traceback.print_exc()
        code = 2
    print(f"{prop} [{ck.tier}] exit={code} obligations={ck.obl} discharged={ck.discharged} "
          f"solver={ck.solver_s:.1f}s wall={time.time()-ck.t0:.1f}s", flush=True)
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(code)
