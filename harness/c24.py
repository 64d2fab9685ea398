"""C24: programs of public operations (History.tla, HistoryTrace.tla)."""
import contextlib
import hashlib
import pickle
import random

from vf import *  # noqa: F403

import catalogue
import glass.jax
from catalogue import OPS

SLOW = {"jax.numpy": {"partition.nnls", "partition.restrict", "partition.lstsq"}}
END = "exhausted"


def leaves(x, out):
    """Arrays and other values inside of an argument or result, in order."""
    if isinstance(x, glass.RadialWindow):
        out += [x.za, x.wa, x.zeff]
    elif isinstance(x, (glass.grf.Normal, glass.grf.Lognormal, glass.grf.SquaredNormal)):
        out.append(type(x).__name__)
        out += [getattr(x, n) for n in ("a", "lamda") if hasattr(x, n)]
    elif isinstance(x, (list, tuple)):
        out.append(len(x))
        for v in x:
            leaves(v, out)
    elif isinstance(x, dict):
        for k, v in x.items():
            out.append(k)
            leaves(v, out)
    elif isinstance(x, catalogue.Cosmo):
        out += [repr(sorted((k, v) for k, v in vars(x).items() if k != "xp"))]
    else:
        out.append(x)
    return out


def isarr(v):
    return isinstance(v, np.generic) or hasattr(v, "__array_namespace__") or isinstance(v, (np.ndarray, jax.Array))


def digest(x):
    h = hashlib.blake2b(digest_size=12)
    for v in leaves(x, []):
        if isarr(v):
            a = np.ascontiguousarray(npa(v))
            h.update(repr((nsname(v), a.dtype.str, npa(v).shape)).encode())
            h.update(a.tobytes())
        else:
            h.update(repr((type(v).__name__, v)).encode())
    return h.hexdigest()


def plain(x):
    """Values of a result, independent of the backend."""
    return [np.array(npa(v)) if isarr(v) else v for v in leaves(x, [])]


def alike(a, b, rtol=1e-11, dtypes=True):
    if len(a) != len(b):
        return False
    for u, v in zip(a, b):
        if isinstance(u, np.ndarray) or isinstance(v, np.ndarray):
            u, v = np.asarray(u), np.asarray(v)
            if u.shape != v.shape or (dtypes and u.dtype.kind != v.dtype.kind):
                return False
            if u.dtype.kind in "fc" or v.dtype.kind in "fc":
                if not np.allclose(u, v, rtol=rtol, atol=rtol * max(1e-3, float(np.max(np.abs(v[np.isfinite(v)]), initial=0.0))), equal_nan=True):
                    return False
            elif not np.array_equal(u, v):
                return False
        elif isinstance(u, float) and isinstance(v, (float, int)):
            if not (u == v or abs(u - v) <= rtol * max(abs(u), abs(v)) or (u != u and v != v)):
                return False
        elif u != v:
            return False
    return True


def rngstate(g):
    g = getattr(g, "rng", g) if isinstance(g, glass.rng.Generator) else g
    if hasattr(g, "bit_generator"):
        return hashlib.blake2b(repr(g.bit_generator.state).encode(), digest_size=12).hexdigest()
    return hashlib.blake2b(np.asarray(jax.random.key_data(g.key)).tobytes(), digest_size=12).hexdigest()


def globalstate():
    return hashlib.blake2b(repr((
        [x.tolist() if hasattr(x, "tolist") else x for x in np.random.get_state()], random.getstate(), np.geterr(), sorted(os.environ.items()),
        jax.config.jax_enable_x64, array_api_strict.get_array_api_strict_flags(), os.getcwd(), len(sys.path),
    )).encode(), digest_size=12).hexdigest()


class Intern(dict):
    def __missing__(self, k):
        self[k] = len(self) + 1
        return self[k]


class Memory:
    """Numbers of results: results of the same key that agree to rounding have the same number."""

    def __init__(self):
        self.seen = {}
        self.n = 0

    def number(self, key, vals):
        for n, v in self.seen.setdefault(key, []):
            if alike(vals, v):
                return n
        self.n += 1
        self.seen[key].append((self.n, vals))
        return self.n


class DefaultRng:
    """Operations that draw, called without a generator."""


def operations(name):
    out = []
    for o in OPS:
        if (o.only and name not in o.only) or o.name in SLOW.get(name, ()):
            continue
        out.append((o, False))
        if o.draws:
            out.append((o, True))   # without a generator
    return out


def newgen(name, xp, seed, native=False):
    g = np.random.default_rng(seed)
    if name == "numpy":
        return g
    if native and name == "jax.numpy":
        return glass.jax.Generator(seed)
    return glass.rng.Generator(rng=g, xp=xp)


def scribble(x):
    if isinstance(x, glass.RadialWindow):
        scribble([x.za, x.wa])
    elif isinstance(x, (list, tuple)):
        for v in x:
            scribble(v)
        if isinstance(x, list):
            x.append("scribbled")
    elif isinstance(x, np.ndarray):
        if x.flags.writeable and x.size:
            x[...] = 77
    elif hasattr(x, "__array_namespace__") and not isinstance(x, (jax.Array, np.generic)) and x.size:
        with contextlib.suppress(ValueError):   # read only
            x[...] = x.__array_namespace__().asarray(7, dtype=x.dtype)


class Program:
    def __init__(self, ck, name, xp, ids, memory, keys, seeds):
        self.ck, self.name, self.xp, self.ids, self.memory, self.keys = ck, name, xp, ids, memory, keys
        self.gens = [newgen(name, xp, seeds[0]), newgen(name, xp, seeds[1], native=True)]
        self.objs, self.calls, self.its, self.fams = [], {}, [], []
        self.lines = [{"ev": "start", "gens": self.gs(), "glob": ids[globalstate()]}]

    def gs(self):
        return [self.ids[rngstate(g)] for g in self.gens]

    def heap(self):
        return [self.ids[digest(o)] for o in self.objs]

    def line(self, ev, fam, g=0, draws=False, key=0, res=0, after=0, backend=True):
        self.lines.append({"ev": ev, "heap": self.heap(), "gens": self.gs(), "glob": self.ids[globalstate()],
                           "g": g, "draws": draws, "key": key, "res": res, "after": after, "backend": backend, "fam": fam})

    def native(self, result):
        return all(nsname(v) == self.name for v in leaves(result, []) if isarr(v))

    def call(self, n, o, default, g, args=None, fam=None):
        fam = n if fam is None else fam
        fresh = args is None
        if fresh:
            args = o.args(self.xp)
            self.objs.append(args)
        before = digest(args)
        rng = None if default or not o.draws else self.gens[g - 1]
        state = rngstate(rng) if rng is not None else ""
        if fresh:   # the arguments are on the heap before the call, so that changing them is seen
            self.line("open", fam, 0)
        result = o.call(self.xp, *args, rng=rng)
        if hasattr(result, "__next__"):
            items = []
            for v in result:
                items.append(plain(v) if o.reuse else v)
            result = items
        ok = self.native(result) or o.reuse
        key = self.keys[(self.name, o.name, default, before, state)]
        res = self.memory.number(key, plain(result))
        self.objs.append(result)
        self.calls[n] = (o, default, args, result, fam)
        self.line("call", fam, g if rng is not None else 0, rng is not None, key, res,
                  self.ids[rngstate(rng)] if rng is not None else 0, ok)

    def scribble(self, n, k):
        _, _, _, result, fam = self.calls[k]
        scribble(result)
        self.line("scribble", fam)

    def open(self, n, o):
        args = o.args(self.xp)
        it = o.call(self.xp, *args, rng=newgen(self.name, self.xp, 99) if o.draws else None)
        self.objs.append(args)
        self.its.append([o, it, 0, n])
        self.line("open", n)

    def advance(self, n, i):
        o, it, at, fam = self.its[i - 1]
        try:
            v = next(it)
        except StopIteration:
            v = END
        self.its[i - 1][2] += 1
        key = self.keys[(self.name, o.name, "item", at)]
        res = self.memory.number(key, plain(v))
        if not o.reuse and not isinstance(v, str):
            self.objs.append(v)
        self.line("call", fam, 0, False, key, res, 0, isinstance(v, str) or o.reuse or self.native(v))


def assign(rng, name, only=None):
    """Concrete operations for the numbers of the specification."""
    ops = operations(name)
    pl = [x for x in ops if x[1] or not x[0].draws]
    dr = [x for x in ops if x[0].draws and not x[1]]
    it = [x for x in ops if x[0].iterator and not x[1]]
    pick = lambda s, n: [s[int(i)] for i in rng.permutation(len(s))[:n]]  # noqa: E731
    m = dict(zip((1, 2), pick(pl, 2))) | dict(zip((3, 4), pick(dr, 2))) | dict(zip((5, 6), pick(it, 2)))
    return m | (only or {})


def replay(ck, log, m, name, xp, ids, memory, keys, seeds):
    p = Program(ck, name, xp, ids, memory, keys, seeds)
    for n, s in enumerate(log, 1):
        o, default = m[s["op"]]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if s["a"] == "call":
                p.call(n, o, default, s["g"])
            elif s["a"] == "again":
                oo, dd, args, _, fam = p.calls[s["k"]]
                p.call(n, oo, dd, s["g"], args, fam)
            elif s["a"] == "scribble":
                p.scribble(n, s["k"])
            elif s["a"] == "open":
                p.open(n, o)
            else:
                p.advance(n, s["k"])
    return p.lines


def child(seed, out, names):
    """Another process: every operation once, in another order; results by key."""
    rng = np.random.default_rng(seed)
    res = {}
    for name, xp in BACKENDS:
        if name not in names:
            continue
        ops = operations(name)
        for i in rng.permutation(len(ops)):
            o, default = ops[int(i)]
            args = o.args(xp)
            d = digest(args)
            g = None if default or not o.draws else newgen(name, xp, 1234)
            try:
                r = o.call(xp, *args, rng=g)
                r = plain([plain(v) for v in r] if hasattr(r, "__next__") else r)
            except Exception as e:  # noqa: BLE001
                r = [f"raised {type(e).__name__}"]
            res[(name, o.name, default, d)] = r
    with open(out, "wb") as f:
        pickle.dump(res, f)


def run(ck):
    q = ck.quick
    names = [n for n, _ in BACKENDS]
    kids = []
    for i in range(3 if q else 6):
        f = ck.tmp / f"child{i}"
        # the last one leaves out jax, so that it starts from another operation
        env = dict(os.environ, PYTHONHASHSEED=str(i + 1), VERIF_SEED=str(ck.seed), OMP_NUM_THREADS="1")
        sel = ",".join(names if i != 1 else ["numpy", "array_api_strict"])
        kids.append((f, subprocess.Popen([sys.executable, "-B", __file__, "child", str(ck.seed * 100 + i), str(f), sel], env=env,
                                         stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)))
    short = ck.tlc_bg("History", {"Plain": {1, 2}, "Draws": {3}, "Iters": {5}, "Gens": {1, 2}, "Depth": 4},
                      invariants=["Function", "Emit"], properties=["Untouched", "OnlyGiven"])
    long = ck.tlc_bg("History", {"Plain": {1, 2}, "Draws": {3, 4}, "Iters": {5, 6}, "Gens": {1, 2}, "Depth": 14},
                     invariants=["Function", "Emit"], simulate=(300 if q else 4000, 15))
    short, long = short.result(), long.result()
    ids, keys, memory = Intern(), Intern(), Memory()
    lines = []
    calls = lambda r: sum(s["a"] in ("call", "again", "advance") for s in r["log"])  # noqa: E731
    short = [r for r in short if calls(r) >= 2]
    ck.sample(short[0])
    ck.sample(long[0])

    def drive(rec, m, name, xp):
        seeds = [int(ck.rng.integers(3)), 10 + int(ck.rng.integers(3))]
        d = {"backend": name, "ops": {k: v[0].name + (" (no generator)" if v[1] else "") for k, v in m.items()}, "log": rec["log"]}
        ck.traces += 1
        with ck.case("program of public operations", d, timeout=300):
            local = replay(ck, rec["log"], m, name, xp, ids, memory, keys, seeds)
            for x in local:
                x["where"] = d["ops"] if x["ev"] == "start" else 0
            lines.extend(local)

    def sel(pool):
        return pool[int(ck.rng.integers(len(pool)))]

    # every operation twice around a scribble, on every backend
    basic = [{"a": "call", "op": 1, "g": 1, "k": 0}, {"a": "again", "op": 1, "g": 1, "k": 1}, {"a": "call", "op": 1, "g": 2, "k": 0},
             {"a": "scribble", "op": 1, "g": 0, "k": 1}, {"a": "call", "op": 1, "g": 1, "k": 0}]
    for name, xp in BACKENDS:
        for x in operations(name):
            drive({"log": basic}, {1: x}, name, xp)
    # short programs: exhaustive shapes, sampled operations
    for name, xp in BACKENDS:
        n = {"numpy": 900, "array_api_strict": 350, "jax.numpy": 40}[name] * (1 if q else 7 if name != "jax.numpy" else 4)
        for _ in range(n):
            drive(sel(short), assign(ck.rng, name), name, xp)
        for r in [sel(long) for _ in range({"numpy": 120, "array_api_strict": 60, "jax.numpy": 6}[name] * (1 if q else 6))]:
            drive(r, assign(ck.rng, name), name, xp)
    # ordered pairs of operations
    ops = operations("numpy")
    pairs = [(i, j) for i in range(len(ops)) for j in range(len(ops)) if i != j]
    ck.rng.shuffle(pairs)
    for i, j in pairs[: 1000 if q else 7000]:
        log = [{"a": "call", "op": 1, "g": 1, "k": 0}, {"a": "scribble", "op": 1, "g": 0, "k": 1},
               {"a": "call", "op": 2, "g": 2, "k": 0}, {"a": "call", "op": 1, "g": 2, "k": 0}]
        drive({"log": log}, {1: ops[i], 2: ops[j]}, "numpy", np)
    # the same operations in other processes, and on other backends
    ref, memo = {}, []
    other = Memory()
    number = Intern()
    for f, p in kids:
        err = p.communicate(timeout=600)[1]
        if p.returncode:
            raise MachineryError("child: " + err.decode()[-2000:])
        res = pickle.loads(f.read_bytes())
        for k, r in res.items():
            memo.append({"ev": "memo", "key": number[k], "res": other.number(k, r), "where": list(map(str, k))})
            ref.setdefault(k[:3], r)
            ck.ok(not (r and isinstance(r[0], str) and r[0].startswith("raised")), "operation raised", lambda: {"op": k, "result": r})
    memo.sort(key=lambda x: x["key"])
    for (name, o, default), r in ref.items():
        if name != "numpy" and o not in ("rng.default", "rng.Generator") and not (default and name == "jax.numpy"):
            r0 = ref[("numpy", o, default)]
            strip = lambda v: [x for x in v if not isinstance(x, str)]  # noqa: E731
            ck.ok(alike(strip(r), strip(r0), rtol=1e-8, dtypes=False), "the same inputs give the same result on every backend",
                  lambda: {"op": o, "backend": name, "got": r, "numpy": r0})
    step = 12000
    cut = [0]
    for i, x in enumerate(lines):
        if x["ev"] == "start" and i - cut[-1] >= step:
            cut.append(i)
    cut.append(len(lines))
    jobs = [(lines[a:b]) for a, b in zip(cut, cut[1:])] + [memo]
    for j in jobs:
        ck.validate("HistoryTrace", j)


if len(sys.argv) > 1 and sys.argv[1] == "child":
    warnings.simplefilter("ignore")
    child(int(sys.argv[2]), sys.argv[3], sys.argv[4].split(","))
else:
    main("C24", run)
