"""Common machinery of the checks: TLC runs, conformance bookkeeping, evidence.

Exit codes: 0 held on everything explored, 1 violation (with a VIOLATION line),
2 failure of the machinery itself.
"""
from __future__ import annotations

import concurrent.futures
import contextlib
import gc
import json
import math
import os
import pathlib
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import traceback
import warnings
from fractions import Fraction

os.environ.setdefault("JAX_PLATFORMS", "cpu")
# several threads only spin on arrays of this size
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "DUCC0_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[_v] = "1"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
REPO = pathlib.Path(os.environ.get("GLASS_REPO", "/repo"))
sys.path.insert(0, str(REPO))

import numpy as np  # noqa: E402

ROOT = pathlib.Path(__file__).resolve().parent.parent
SPEC = ROOT / "spec"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

import jax  # noqa: E402

jax.config.update("jax_enable_x64", True)
import array_api_strict  # noqa: E402
import jax.numpy as jnp  # noqa: E402

array_api_strict.set_array_api_strict_flags(api_version="2025.12")

import glass  # noqa: E402

NP, JX, ST = np, jnp, array_api_strict
BACKENDS = [("numpy", np), ("jax.numpy", jnp), ("array_api_strict", array_api_strict)]


class MachineryError(Exception):
    """The check itself failed; no verdict."""


class Hang(BaseException):
    """A call into the code did not return in time."""


class Enough(BaseException):
    """Violations were found, and looking for more would take too long."""


# ---------------------------------------------------------------- arrays


LAYOUT = [0]


def layout(a):
    """Copy of an array, every now and then in another place of memory: column-major, strided, backwards."""
    LAYOUT[0] += 1
    k = LAYOUT[0] % 7
    if a.ndim == 0 or a.size == 0 or k > 2:
        return a.copy()
    if k == 0:
        return a.copy(order="F")
    if k == 1:
        b = np.full((*a.shape[:-1], 2 * a.shape[-1]), 99, a.dtype)
        b[..., ::2] = a
        return b[..., ::2]
    return a[::-1].copy()[::-1]


def mk(xp, data, dtype=float):
    """Array of a backend from nested lists / numpy data."""
    a = np.asarray(data, dtype=dtype)
    if xp is jnp:
        return jnp.asarray(a)
    return layout(a) if xp is np else xp.asarray(layout(a))


def npa(x):
    """Numpy view of any result."""
    if isinstance(x, (int, float, complex, bool, np.generic, np.ndarray)):
        return np.asarray(x)
    if isinstance(x, (list, tuple)):
        return np.asarray([npa(v) for v in x])
    return np.asarray(x)


def nsname(x):
    if isinstance(x, (np.ndarray, np.generic)):
        return "numpy"
    if isinstance(x, jax.Array):
        return "jax.numpy"
    if hasattr(x, "__array_namespace__"):
        return x.__array_namespace__().__name__
    return type(x).__name__


def close(got, exp, rtol=1e-9, atol=1e-9, shape=True):
    g, e = npa(got), npa(exp)
    if shape and g.shape != e.shape:
        return False
    if g.size == 0 or e.size == 0:
        return g.size == e.size
    try:
        return bool(np.allclose(g, e, rtol=rtol, atol=atol, equal_nan=False))
    except (TypeError, ValueError):
        return False


def same(got, exp):
    """Exact equality including shape (nan equals nan)."""
    g, e = npa(got), npa(exp)
    if g.shape != e.shape:
        return False
    if g.dtype.kind in "fc" or e.dtype.kind in "fc":
        return bool(np.array_equal(g, e, equal_nan=True))
    return bool(np.array_equal(g, e))


def Q(p):
    return Fraction(p[0], p[1])


def qf(x, depth=0):
    """Nested lists of [num, den] (below ``depth`` list levels) to floats."""
    if depth == 0:
        return x[0] / x[1]
    return [qf(v, depth - 1) for v in x]


def snap(v, dmax=2000, tol=1e-9, nmax=10**6):
    """Float to [num, den] if it is within tol of a small rational, else [0, 0]."""
    v = float(v)
    if not math.isfinite(v):
        return [0, 0]
    f = Fraction(v).limit_denominator(dmax)
    if abs(float(f) - v) > tol * max(1.0, abs(v)) or abs(f.numerator) > nmax:
        return [0, 0]
    return [f.numerator, f.denominator]


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, Fraction):
        return [x.numerator, x.denominator]
    if isinstance(x, (str, int, bool)) or x is None:
        return x
    if isinstance(x, float):
        return x if math.isfinite(x) else str(x)
    try:
        a = npa(x)
        if a.dtype.kind == "O":
            return repr(x)[:2000]
        if a.dtype.kind == "c":
            return [str(v) for v in a.ravel()[:500]]
        if a.size > 500:
            return {"shape": list(a.shape), "head": jsonable(a.ravel()[:50].tolist())}
        return jsonable(a.tolist())
    except Exception:  # noqa: BLE001
        return repr(x)[:2000]


# ---------------------------------------------------------------- scripted generators


class Script:
    """Random generator reading from scripted streams.

    All uniform-type draws (random, uniform) read one stream of numbers in
    [0, 1), all normal-type draws one stream of standard normals, so that the
    way the code splits or merges its draws does not matter.  poisson and
    multinomial outcomes are computed by callbacks from their parameters.
    """

    def __init__(self, u=(), z=(), poisson=None, multinomial=None, u_default=None, z_default=None):
        self.u = [float(v) for v in u]
        self.z = [float(v) for v in z]
        self.iu = self.iz = 0
        self.u_default, self.z_default = u_default, z_default
        self._poisson, self._multinomial = poisson, multinomial
        self.log = []

    @staticmethod
    def _shape(size, *args):
        b = np.broadcast_shapes(*[np.shape(npa(a)) for a in args]) if args else ()
        if size is None:
            return tuple(b)
        if isinstance(size, (int, np.integer)):
            return (int(size),)
        if hasattr(size, "ndim") and getattr(size, "ndim", 0) == 0:
            return (int(size),)
        return tuple(int(s) for s in size)

    def _take(self, kind, shape):
        n = int(np.prod(shape, dtype=int)) if shape else 1
        if kind == "u":
            src, i, dflt = self.u, self.iu, self.u_default
        else:
            src, i, dflt = self.z, self.iz, self.z_default
        vals = src[i : i + n]
        if len(vals) < n:
            if dflt is None:
                raise MachineryExhausted(f"scripted {kind} stream exhausted")
            more = n - len(vals)
            vals = list(vals) + (list(dflt(more)) if callable(dflt) else [dflt] * more)
        if kind == "u":
            self.iu += n
        else:
            self.iz += n
        a = np.asarray(vals, dtype=float).reshape(shape)
        return a if shape else float(a)

    def random(self, size=None, dtype=None):
        return self._take("u", self._shape(size))

    def uniform(self, low=0.0, high=1.0, size=None):
        s = self._shape(size, low, high)
        self.log.append(("uniform", s))
        lo, hi = npa(low), npa(high)
        return lo + (hi - lo) * self._take("u", s)

    def standard_normal(self, size=None, dtype=None):
        s = self._shape(size)
        self.log.append(("normal", s))
        return self._take("z", s)

    def normal(self, loc=0.0, scale=1.0, size=None):
        s = self._shape(size, loc, scale)
        self.log.append(("normal", s))
        return npa(loc) + npa(scale) * self._take("z", s)

    def poisson(self, lam, size=None):
        lam = npa(lam)
        self.log.append(("poisson", lam.copy()))
        return self._poisson(lam)

    def multinomial(self, n, pvals, size=None):
        p = npa(pvals)
        self.log.append(("multinomial", p.copy()))
        return self._multinomial(n, p)


class MachineryExhausted(Exception):
    """The code asked for more random numbers than the behaviour provides."""


# ---------------------------------------------------------------- check


def trim(limit=20000):
    """Drop compiled functions of jax before the process runs out of memory mappings."""
    with open("/proc/self/maps") as f:
        n = sum(1 for _ in f)
    if n > limit:
        jax.clear_caches()
        gc.collect()


class Check:
    def __init__(self, pid, technique_note=""):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if len(sys.argv) > 1 and sys.argv[1] in ("quick", "thorough"):
            self.tier = sys.argv[1]
        self.quick = self.tier != "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = np.random.default_rng([self.seed, int(pid[1:])])
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.violations, self.known_hits = [], [], {}
        self.clauses = {}
        self.tlc_runs = []
        self.assumptions = []
        self.tmp = pathlib.Path(tempfile.mkdtemp(prefix=f"vf{pid}-"))
        self.pool = concurrent.futures.ThreadPoolExecutor(4)
        self.known = load_known(pid)
        signal.signal(signal.SIGALRM, self._alarm)
        warnings.simplefilter("ignore")

    @staticmethod
    def _alarm(*_a):
        raise Hang

    # -- TLC

    def tlc(self, module, constants=None, *, invariants=(), properties=(), spec="Spec",
            postcondition=None, trace=None, workers=4, timeout=800, constraint=None,
            view=None, extra_env=None, action_constraint=None, name=None, simulate=None,
            deadlock=False):
        """Run TLC on spec/<module>.tla; returns the JSON records it emitted to OUT."""
        name = name or module
        d = pathlib.Path(tempfile.mkdtemp(prefix=f"tlc-{name}-", dir=self.tmp))
        cfg = [f"SPECIFICATION {spec}"]
        defs = [f"---- MODULE MC ----\nEXTENDS {module}"]
        for k, v in (constants or {}).items():
            defs.append(f"mc_{k} == {tla(v)}")
            cfg.append(f"CONSTANT {k} <- mc_{k}")
        (d / "MC.tla").write_text("\n".join(defs) + "\n====\n")
        cfg += [f"INVARIANT {i}" for i in invariants]
        cfg += [f"PROPERTY {p}" for p in properties]
        if postcondition:
            cfg.append(f"POSTCONDITION {postcondition}")
        if constraint:
            cfg.append(f"CONSTRAINT {constraint}")
        if action_constraint:
            cfg.append(f"ACTION_CONSTRAINT {action_constraint}")
        if view:
            cfg.append(f"VIEW {view}")
        cfg.append(f"CHECK_DEADLOCK {'TRUE' if deadlock else 'FALSE'}")
        (d / "MC.cfg").write_text("\n".join(cfg) + "\n")
        out = d / "out.ndjson"
        env = dict(os.environ, OUT=str(out), **(extra_env or {}))
        env.pop("JAVA_TOOL_OPTIONS", None)
        if trace is not None:
            (d / "trace.ndjson").write_text("".join(json.dumps(jsonable(t)) + "\n" for t in trace))
            env["TRACE"] = str(d / "trace.ndjson")
            workers = 1
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx6g", "-Xss64m",
               f"-DTLA-Library={SPEC}", f"-Djava.io.tmpdir={d}", "-cp", JAR, "tlc2.TLC",
               "-config", str(d / "MC.cfg"), "-metadir", str(d / "states"),
               "-workers", str(workers), "-noGenerateSpecTE", "-fp", "1"]
        if simulate:
            cmd += ["-simulate", f"num={simulate[0]}", "-depth", str(simulate[1]), "-seed", str(self.seed)]
        cmd.append(str(d / "MC.tla"))
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=d, env=env, capture_output=True, text=True, timeout=timeout, check=False)
        except subprocess.TimeoutExpired as e:
            raise MachineryError(f"TLC {name}: timeout after {timeout} s") from e
        txt = p.stdout + p.stderr
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", txt)
        if p.returncode != 0 or not m:
            if not (simulate and p.returncode == 0):
                if trace is not None and (p.returncode in (75, 76, 77) or (p.returncode == 255 and "Starting... (" in txt and "OutOfMemory" not in txt)):
                    raise OutOfDomain(txt[-3000:])
                raise MachineryError(f"TLC {name}: exit {p.returncode}\n{txt[:3000]}\n...\n{txt[-3000:]}")
        gen, dist = (int(m[1]), int(m[2])) if m else (0, 0)
        self.states += dist
        self.transitions += gen
        recs = []
        if out.exists():
            with out.open() as f:
                recs = [json.loads(line) for line in f if line.strip()]
            recs = [json.loads(r) if isinstance(r, str) else r for r in recs]
            if len(recs) < 200000:
                recs.sort(key=lambda r: json.dumps(r, sort_keys=True))
        self.tlc_runs.append({"spec": name, "states": dist, "transitions": gen,
                              "emitted": len(recs), "seconds": round(time.time() - t, 1)})
        shutil.rmtree(d, ignore_errors=True)
        return recs

    def tlc_bg(self, *a, **k):
        return self.pool.submit(self.tlc, *a, **k)

    def validate(self, module, lines, constants=None, *, clause_prefix="", describe=None, **kw):
        """Trace validation: TLC consumes every line and reports those it rejects."""
        if not lines:
            return
        try:
            rej = self.tlc(module, constants, trace=lines, spec="TraceSpec",
                           postcondition="TraceAccepted", **kw)
        except OutOfDomain as e:
            # the code returned something that has no meaning in the specification
            self.fail(clause_prefix + "recorded values are in the domain of " + module, {"tlc": str(e), "lines": lines[:20]})
            return
        self.traces += 1
        for r in rej:
            line = lines[r["l"] - 1]
            for c in r["bad"]:
                self.fail(clause_prefix + c, {"line": r["l"], "event": line})
        bad = {r["l"] for r in rej}
        self.clauses["trace lines accepted by " + module] = (
            self.clauses.get("trace lines accepted by " + module, 0) + len(lines) - len(bad))

    # -- verdicts

    def fail(self, clause, detail=None, key=None):
        if key and key in self.known:
            self.known_hits[key] = self.known[key]
            return
        self.violations.append({"clause": clause, "detail": jsonable(detail)})
        if "did not return" in clause:
            self.hangs = getattr(self, "hangs", 0) + 1
        if getattr(self, "hangs", 0) > 3 or time.time() - self.t0 > (400 if self.quick else 780):
            signal.setitimer(signal.ITIMER_REAL, 0)
            raise Enough

    def ok(self, cond, clause, detail=None, key=None):
        self.clauses[clause] = self.clauses.get(clause, 0) + 1
        if not cond:
            self.fail(clause, detail() if callable(detail) else detail, key)
        return bool(cond)

    @contextlib.contextmanager
    def case(self, clause, detail=None, timeout=60):
        """Everything raised while driving the code is a violation of ``clause``."""
        self.ncase = getattr(self, "ncase", 0) + 1
        if self.ncase % 50 == 0:
            trim()
        signal.setitimer(signal.ITIMER_REAL, timeout)
        try:
            yield
        except MachineryError:
            raise
        except Hang:
            self.fail(clause + ": call did not return", detail)
        except Exception as e:  # noqa: BLE001
            tb = traceback.format_exc(limit=-4)
            self.fail(clause + f": raised {type(e).__name__}: {e}"[:300], {"case": detail, "traceback": tb})
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)

    def raises(self, exc, clause, fn, detail=None, timeout=60):
        """The call must raise ``exc``."""
        self.clauses[clause] = self.clauses.get(clause, 0) + 1
        signal.setitimer(signal.ITIMER_REAL, timeout)
        try:
            r = fn()
            if hasattr(r, "__next__"):
                list(r)
        except exc:
            return True
        except Hang:
            self.fail(clause + ": call did not return", detail)
            return False
        except Exception as e:  # noqa: BLE001
            self.fail(clause + f": raised {type(e).__name__} instead", detail)
            return False
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        self.fail(clause + ": accepted", detail)
        return False

    def sample(self, x, cap=6):
        if len(self.samples) < cap:
            self.samples.append(jsonable(x))

    def finish(self):
        ev = ROOT / "evidence"
        ev.mkdir(exist_ok=True)
        cov = {
            "states": self.states, "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "samples": self.samples or ["(no sample recorded)"],
            "tlc_runs": self.tlc_runs,
            "clauses_evaluated": self.clauses,
        }
        (ev / f"{self.pid}.json").write_text(json.dumps({
            "property": self.pid, "tier": "quick" if self.quick else "thorough", "seed": self.seed,
            "level": "model_checking", "coverage": cov, "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations),
        }, indent=1))
        shutil.rmtree(self.tmp, ignore_errors=True)
        for k, v in self.known_hits.items():
            print(f"KNOWN-FINDING: property={self.pid} {v}")
        print(f"{self.pid} {self.tier}: {self.states} states, {self.transitions} transitions, "
              f"{self.traces} traces against the implementation, "
              f"{sum(self.clauses.values())} clause evaluations, {time.time() - self.t0:.1f} s")
        if not self.violations:
            print(f"{self.pid}: held")
            return 0
        rp = ev / "replay"
        rp.mkdir(exist_ok=True)
        f = rp / f"{self.pid}.json"
        f.write_text(json.dumps({"property": self.pid, "tier": self.tier, "seed": self.seed,
                                 "violations": self.violations[:50]}, indent=1))
        seen = {}
        for v in self.violations:
            seen[v["clause"]] = seen.get(v["clause"], 0) + 1
        for c, n in list(seen.items())[:20]:
            print(f"  violated ({n}x): {c}")
        print(f"VIOLATION property={self.pid} replay={f}")
        return 1


def tla(v):
    """TLA+ expression: int, bool, set, sequence, or a string taken verbatim."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(tla(x) for x in sorted(v)) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    return str(v)


def load_known(pid):
    out = {}
    f = ROOT / "KNOWN_FINDINGS.txt"
    if f.exists():
        for line in f.read_text().splitlines():
            m = re.match(rf"finding: property={pid} key=(\S+) (.*)", line)
            if m:
                out[m[1]] = m[2]
    return out


class OutOfDomain(MachineryError):
    """A recorded line that the specification cannot evaluate."""


def main(pid, fn):
    ck = None

    def watchdog():
        # a call that never returns must not hide what was found before it
        if ck is not None and ck.violations:
            ck.finish()
            sys.stdout.flush()
            subprocess.run(["pkill", "-P", str(os.getpid())], check=False)
            os._exit(1)

    dog = threading.Timer(850, watchdog)
    dog.daemon = True
    dog.start()
    try:
        ck = Check(pid)
        fn(ck)
        rc = ck.finish()
    except Enough:
        rc = ck.finish()
    except MachineryError as e:
        print(f"MACHINERY: {e}", file=sys.stderr)
        rc = ck.finish() if ck is not None and ck.violations else 2
    except (OSError, MemoryError, subprocess.SubprocessError, KeyboardInterrupt):
        traceback.print_exc()
        rc = ck.finish() if ck is not None and ck.violations else 2
    except Exception as e:  # noqa: BLE001
        # a result of the code that the harness cannot even look at
        traceback.print_exc()
        rc = 2
        if ck is not None:
            with contextlib.suppress(Enough):
                ck.fail(f"results have the documented form (the harness stopped with {type(e).__name__}: {e})"[:300], traceback.format_exc(limit=-6))
            rc = ck.finish()
    finally:
        if ck is not None:
            shutil.rmtree(ck.tmp, ignore_errors=True)
    if rc:
        subprocess.run(["pkill", "-P", str(os.getpid())], check=False)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
