"""C14: random generators (JaxRng.tla, RngThreads.tla)."""
import itertools
import queue
import threading
from unittest import mock

import jax.random as jr

from vf import *  # noqa: F403

import glass.jax as gj
import glass.rng as gr

JG = gj.Generator
TL = threading.local()


def kid(key):
    """Identity of a key by value."""
    return np.asarray(jr.key_data(key)).tobytes()


class Boundary:
    """Records the keys used up by calls to jax.random, and offers scheduling points around them."""

    def __init__(self, point=lambda *_a: None):
        self.used, self.point = [], point
        self.patches = []

    def wrap(self, fn):
        def call(key=None, *a, **k):
            k0 = key if key is not None else k.get("key")
            top = not getattr(TL, "depth", 0) and k0 is not None and hasattr(k0, "dtype") and not isinstance(k0, jax.core.Tracer)
            if not top:
                return fn(key, *a, **k) if key is not None else fn(*a, **k)
            TL.depth = 1
            try:
                if jax.dtypes.issubdtype(k0.dtype, jax.dtypes.prng_key) and k0.ndim == 0:
                    self.used.append(kid(k0))
                self.point("before")
                r = fn(key, *a, **k) if key is not None else fn(*a, **k)
                self.point("after")
                return r
            finally:
                TL.depth = 0
        return call

    def __enter__(self):
        for n in ("split", "uniform", "normal", "poisson", "multinomial", "bits", "categorical", "exponential", "fold_in",
                  "randint", "permutation", "choice", "bernoulli", "binomial", "gamma", "beta", "truncated_normal", "gumbel"):
            if hasattr(jr, n):
                p = mock.patch.object(jr, n, self.wrap(getattr(jr, n)))
                p.start()
                self.patches.append(p)
        return self

    def __exit__(self, *a):
        for p in self.patches:
            p.stop()


def draw(g, d):
    f = {"random": lambda: g.random(4), "normal": lambda: g.normal(0.0, 1.0, 4), "standard_normal": lambda: g.standard_normal(4),
         "uniform": lambda: g.uniform(0.0, 1.0, 4), "poisson": lambda: g.poisson(1e6, 4),
         "multinomial": lambda: g.multinomial(10**6, jnp.asarray([0.2, 0.3, 0.5]))}[d]
    return f()


def history(log, seed, ids=None):
    """Run a history; returns trace lines and all outputs as bytes."""
    ids = {} if ids is None else ids
    num = lambda b: ids.setdefault(b, len(ids) + 1)  # noqa: E731
    gens, loose, lines, outs = [JG(seed)], [], [{"op": "new"}], []
    for e in log:
        with Boundary() as b:
            keys, out = [], []
            if e["op"] == "split":
                ks = gens[e["g"] - 1].split(e["n"] if e["n"] > 1 else None)
                if e["n"] == 1:
                    ks = [ks]
                shape_ok = len(ks) == e["n"]
                keys = [kid(k) for k in ks]
                loose += list(ks)
            elif e["op"] == "spawn":
                cs = gens[e["g"] - 1].spawn(e["n"])
                shape_ok = len(cs) == e["n"]
                keys = [kid(c.key) for c in cs if hasattr(c, "key")]
                gens += cs
            elif e["op"] == "adopt":
                gens.append(JG.from_key(loose.pop(0)))
                shape_ok = True
            else:
                out = [np.asarray(draw(gens[e["g"] - 1], e["op"])).tobytes()]
                shape_ok = True
        used = [k for k in b.used]
        outs += out + keys
        lines.append({"op": e["op"], "used": [num(b"k" + k) for k in used], "keys": [num(b"k" + k) for k in keys],
                      "out": [num(e["op"].encode() + o) for o in out], "ok": shape_ok})
    # the keys left in the generators are used by a last draw each
    tail = []
    for g in gens + [JG.from_key(k) for k in loose]:
        with Boundary() as b:
            o = np.asarray(g.random(4)).tobytes()
        tail.append({"op": "random", "used": [num(b"k" + k) for k in b.used], "keys": [], "out": [num(b"random" + o)], "ok": True})
        outs.append(o)
    return lines + tail, outs


# ---------------------------------------------------------------- threads


class SchedLock:
    """Lock whose acquisition and release are scheduling points."""

    sched = None

    def __init__(self):
        self.owner = None

    def acquire(self, blocking=True, timeout=-1):
        s = SchedLock.sched
        if s is None or not s.mine():
            self.owner = self.owner or "main"
            return True
        s.point("acquire")
        while self.owner is not None:
            s.point("blocked")
        self.owner = threading.current_thread()
        return True

    def release(self):
        self.owner = None
        s = SchedLock.sched
        if s is not None and s.mine():
            s.point("release")

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class SchedRLock(SchedLock):
    def acquire(self, blocking=True, timeout=-1):
        if self.owner is threading.current_thread():
            self.count += 1
            return True
        r = super().acquire()
        self.count = 1
        return r

    __enter__ = acquire

    def release(self):
        self.count -= 1
        if self.count == 0:
            super().release()

    def __exit__(self, *a):
        self.release()


class FakeThreading:
    Lock, RLock = SchedLock, SchedRLock

    def __getattr__(self, n):
        return getattr(threading, n)


class Sched:
    slow = 0   # calls that waited for a lock of their own

    def __init__(self, fns):
        self.go = [queue.Queue() for _ in fns]
        self.rep = [queue.Queue() for _ in fns]
        self.result = [None] * len(fns)
        self.state = ["new"] * len(fns)
        self.loc = threading.local()
        self.threads = [threading.Thread(target=self.body, args=(i, f), daemon=True) for i, f in enumerate(fns)]

    def mine(self):
        return getattr(self.loc, "i", None) is not None

    def point(self, what):
        i = getattr(self.loc, "i", None)
        if i is None:
            return
        self.rep[i].put(what)
        self.go[i].get()

    def body(self, i, f):
        self.loc.i = i
        self.go[i].get()
        try:
            self.result[i] = f()
        except BaseException as e:  # noqa: BLE001
            self.result[i] = e
        self.rep[i].put("done")

    def step(self, i):
        """Let thread i run to its next point; False if it cannot move."""
        if self.state[i] == "done":
            return False
        if self.state[i] != "stuck":
            self.go[i].put(None)
        try:
            self.state[i] = self.rep[i].get(timeout=0.02 if self.state[i] == "stuck" else 0.1 if self.slow else 2.0)
        except queue.Empty:
            Sched.slow += 1
            self.state[i] = "stuck"   # waits for something that is not under our control
        return self.state[i] not in ("blocked", "stuck")

    def run(self, order):
        SchedLock.sched = self
        try:
            for t in self.threads:
                t.start()
            for i in order:
                self.step(i)
            last = time.time()
            while any(s != "done" for s in self.state):
                if any([self.step(i) for i in range(len(self.threads))]):
                    last = time.time()
                elif time.time() - last > (20 if "stuck" in self.state else 1):
                    return False
            return True
        finally:
            SchedLock.sched = None


def op(g, kind):
    if kind == "split":
        return [kid(k) for k in g.split(2)]
    if kind == "spawn":
        return [np.asarray(c.random(3)).tobytes() for c in g.spawn(2)]
    return [np.asarray(draw(g, kind)).tobytes()]


def threads(ck, scheds, progs):
    cache = {}

    def sequential(prog):
        """Results per thread for every order of the operations."""
        k = json.dumps(prog)
        if k not in cache:
            slots = [t for t, p in enumerate(prog) for _ in p]
            cache[k] = []
            for order in sorted(set(itertools.permutations(slots))):
                g, pos, res = JG(11), [0] * len(prog), [[] for _ in prog]
                for t in order:
                    res[t].append(op(g, prog[t][pos[t]]))
                    pos[t] += 1
                cache[k].append(res)
        return cache[k]
    for m, r in enumerate(scheds):
        if Sched.slow > 400 and m > 30:
            break
        prog = progs[m % len(progs)]
        det = {"schedule": r["sched"], "operations": prog}
        ck.traces += 1
        with ck.case("concurrent use", det, timeout=60), mock.patch.object(gj, "threading", FakeThreading(), create=True):
            sequential(prog)
            g = JG(11)
            if isinstance(getattr(g, "lock", None), type(threading.Lock())):
                g.lock = SchedLock()
            s = Sched([lambda p=p: [op(g, k) for k in p] for p in prog])
            with Boundary(s.point):
                ended = s.run([t - 1 for t in r["sched"]])
            if not ck.ok(ended, "concurrent callers all return", det):
                continue
            bad = [x for x in s.result if isinstance(x, BaseException)]
            if bad:
                raise bad[0]
            flat = [o for t in s.result for x in t for o in x]
            ck.ok(len(set(flat)) == len(flat), "no two draws share a key", det)
            ck.ok(s.result in sequential(prog), "results of concurrent callers are those of some sequential order", det)


def stress(ck):
    """Free-running threads, all draws distinct."""
    for m in range(3 if ck.quick else 20):
        g = JG(m)
        res = [[] for _ in range(8)]

        def work(i):
            for _ in range(25):
                res[i].append(np.asarray(g.random(3)).tobytes())  # noqa: B023
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            ts = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(8)]
            for t in ts:
                t.start()
            for t in ts:
                t.join(60)
        finally:
            sys.setswitchinterval(old)
        flat = [o for r in res for o in r]
        h = JG(m)
        seq = {np.asarray(h.random(3)).tobytes() for _ in range(200)}
        ck.ok(len(flat) == 200 and set(flat) == seq, "draws of concurrent callers are a permutation of the sequential ones", {"seed": m, "distinct": len(set(flat))})


# ---------------------------------------------------------------- shapes, support, parameters


def shapes(ck):
    g = JG(3)
    sizes = [None, 0, 1, 5, (), (3,), (2, 3), (0, 4), (2, 1, 3)]
    shp = lambda s: () if s is None else (s,) if isinstance(s, int) else s  # noqa: E731
    for s in sizes:
        for dt in (None, jnp.float32, jnp.float64):
            kw = {} if dt is None else {"dtype": dt}
            for n in ("random", "standard_normal"):
                with ck.case(n, {"size": s}):
                    x = getattr(g, n)(s, **kw)
                    ck.ok(x.shape == shp(s) and x.dtype == (dt or jnp.float64), "draws have the requested shape", {"method": n, "size": s, "got": x.shape, "dtype": str(x.dtype)})
        with ck.case("split", {"size": s}):
            k = g.split(s)
            ck.ok(k.shape == shp(s) and len({kid(v) for v in k.ravel()}) == k.size, "split gives as many distinct keys as requested", {"size": s, "got": k.shape})
    for n in (0, 1, 4):
        ck.ok(len(g.spawn(n)) == n, "spawn gives as many generators as requested", n)
    A = lambda *s: np.arange(1, 1 + int(np.prod(s)), dtype=float).reshape(s)  # noqa: E731
    # (first parameter, second parameter, size, shape)
    combos = [(0.5, 2.0, None, ()), (0.5, 2.0, 4, (4,)), (A(3), 2.0, None, (3,)), (0.5, A(3), None, (3,)), (A(2, 1), A(3), None, (2, 3)),
              (A(2, 1), A(1, 3), (2, 3), (2, 3)), (A(3), A(3), 3, (3,)), (0.0, 1.0, (2, 2), (2, 2)), (A(0), 1.0, None, (0,))]
    for a, b, s, shape in combos:
        for mkarr in (lambda v: v, lambda v: jnp.asarray(v)):
            aa, bb = mkarr(a), mkarr(b)
            det = {"parameters": (a, b), "size": s}
            with ck.case("normal", det):
                x = JG(5).normal(aa, bb, s) if s is not None else JG(5).normal(aa, bb)
                z = np.asarray(JG(5).normal(0.0, 1.0, shape))
                ck.ok(x.shape == shape, "draws have the requested shape", {**det, "got": x.shape})
                ck.ok(close(x, a + b * z, rtol=1e-12), "location and scale are applied entry by entry", lambda: {**det, "got": x, "standard": z})
            with ck.case("uniform", det):
                lo, hi = np.asarray(a), np.asarray(a) + np.asarray(b)
                x = JG(5).uniform(mkarr(lo), mkarr(hi), s) if s is not None else JG(5).uniform(mkarr(lo), mkarr(hi))
                u = np.asarray(JG(5).uniform(0.0, 1.0, shape))
                ck.ok(x.shape == shape, "draws have the requested shape", {**det, "got": x.shape})
                ck.ok(close(x, lo + (hi - lo) * u, rtol=1e-9), "bounds are applied entry by entry", lambda: {**det, "got": x, "standard": u})
                ck.ok(bool(np.all((np.asarray(x) >= lo) & (np.asarray(x) <= hi))), "draws fall in the support", det)
            with ck.case("poisson", det):
                ps = np.shape(a)
                x = JG(5).poisson(mkarr(np.abs(a)), s if s is not None and (ps == shape or ps == ()) else None)
                ps = shape if s is not None and ps == () else ps
                ck.ok(x.shape == ps and x.dtype.kind == "i" and bool(np.all(np.asarray(x) >= 0)), "draws have the requested shape", {**det, "got": x.shape})
    for f in ("normal", "uniform"):
        ck.raises((ValueError, TypeError), "sizes that contradict the parameters are refused", lambda f=f: getattr(JG(1), f)(jnp.zeros(3), 1.0, 4), f)
        ck.raises((ValueError, TypeError), "sizes that contradict the parameters are refused", lambda f=f: getattr(JG(1), f)(jnp.zeros(3), jnp.ones(2)), f)
    ck.raises((ValueError, TypeError), "sizes that contradict the parameters are refused", lambda: JG(1).poisson(jnp.ones(3), 4), "poisson")
    # default parameters
    with ck.case("defaults"):
        ck.ok(close(JG(2).normal(size=(3, 2)), JG(2).normal(0.0, 1.0, (3, 2))) and close(JG(2).uniform(size=4), JG(2).uniform(0.0, 1.0, 4)), "default parameters", None)
    N = 40_000 if ck.quick else 400_000
    lam = np.array([0.0, 0.3, 4.0, 50.0, 1e4])
    with ck.case("poisson"):
        x = np.asarray(JG(9).poisson(jnp.asarray(np.broadcast_to(lam, (N, 5)))))
        ck.ok(bool(np.all(np.abs(x.mean(0) - lam) <= 6 * np.sqrt(lam / N))) and bool(np.all(np.abs(x.var(0) - lam) <= 9 * np.sqrt((lam + 2 * lam**2) / N))),
              "counts have the mean of their entry", {"mean": x.mean(0), "var": x.var(0)})
    u, z = np.asarray(JG(8).random(N)), np.asarray(JG(8).standard_normal(N))
    ck.ok(bool(np.all((u >= 0) & (u < 1))) and abs(u.mean() - 0.5) < 6 / np.sqrt(12 * N) and abs(u.var() - 1 / 12) < 0.01, "uniform numbers are uniform in [0, 1)", {"mean": u.mean()})
    ck.ok(abs(z.mean()) < 6 / np.sqrt(N) and abs(z.var() - 1) < 9 * np.sqrt(2 / N) and abs((z**3).mean()) < 20 / np.sqrt(N), "normal numbers are standard normal", {"mean": z.mean(), "var": z.var()})
    p = np.array([[0.2, 0.3, 0.5], [0.0, 1.0, 0.0], [0.7, 0.0, 0.3], [0.25, 0.25, 0.5]])
    for n, pv, s, shape in [(7, p[0], None, (3,)), (7, p[0], 5, (5, 3)), (7, p, None, (4, 3)), (1, p, 4, (4, 3)), (np.array([1, 5, 0, 9]), p, None, (4, 3)), (7, p[0], (2, 2), (2, 2, 3))]:
        det = {"n": n, "p": pv, "size": s}
        with ck.case("multinomial", det):
            x = np.asarray(JG(4).multinomial(n if np.ndim(n) == 0 else jnp.asarray(n), jnp.asarray(pv), s))
            ck.ok(x.shape == shape and x.dtype.kind == "i", "draws have the requested shape", {**det, "got": x.shape})
            if x.shape == shape:
                ck.ok(bool(np.all(x.sum(-1) == n)) and bool(np.all(x >= 0)) and bool(np.all(x[np.broadcast_to(pv, shape) == 0] == 0)), "draws fall in the support", {**det, "got": x})
    with ck.case("multinomial"):
        x = np.asarray(JG(6).multinomial(N, jnp.asarray(p)))
        ck.ok(bool(np.all(np.abs(x - N * p) <= 6 * np.sqrt(N * p * (1 - p)) + 1e-9)), "frequencies of the categories", {"got": x, "expected": N * p})
    for bad in (3, np.zeros(2, np.uint32), jnp.zeros(2), "key", None):
        ck.raises(ValueError, "only keys are adopted", lambda bad=bad: JG.from_key(bad), repr(bad))
    with ck.case("seeds"):
        ck.ok(len({np.asarray(JG(s).random(3)).tobytes() for s in range(40)}) == 40, "seeds give different numbers", None)
        ck.ok(JG(1, impl="rbg").random(3).shape == (3,), "other implementations", None)
        a, b = JG.from_key(jr.key(5)), JG.from_key(jr.key(5))
        ck.ok(same(a.random(3), b.random(3)) and same(a.random(3), JG(5).random(6)[:0].reshape(0)) is False, "same key, same numbers", None)


# ---------------------------------------------------------------- wrapper


class Fake:
    """Generator that returns distinct numbers and records what it was asked."""

    def __init__(self, out):
        self.calls, self.out, self.n = [], out, 0

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)

        def f(*a, **k):
            self.calls.append((name, a, k))
            self.n += 1
            return self.out(self.n)
        return f


def bound(name, a, k):
    pars = {"random": ("size", "dtype"), "standard_normal": ("size", "dtype"), "normal": ("loc", "scale", "size"), "uniform": ("low", "high", "size"),
            "poisson": ("lam", "size"), "multinomial": ("n", "pvals", "size")}[name]
    d = dict(zip(pars, a))
    d.update(k)
    return {p: v for p, v in d.items() if p != "dtype" and v is not None}


def wrapper(ck):
    args = {"random": [{}, {"size": 3}, {"size": (2, 2)}], "standard_normal": [{}, {"size": 3}],
            "normal": [{"loc": 1.0, "scale": 2.0}, {"loc": 1.0, "scale": 2.0, "size": (3,)}], "uniform": [{"low": 0.5, "high": 2.5}, {"low": 0.5, "high": 2.5, "size": 4}],
            "poisson": [{"lam": 3.0}, {"lam": 3.0, "size": (2,)}], "multinomial": [{"n": 3, "pvals": np.array([0.5, 0.5])}, {"n": 3, "pvals": np.array([0.5, 0.5]), "size": 2}]}
    for name, xp in BACKENDS:
        for meth, lst in args.items():
            for kw in lst:
                for intlike in (False, True):
                    isint = meth in ("poisson", "multinomial")
                    if intlike and not isint:
                        continue
                    fake = Fake(lambda n, i=isint: np.arange(n, n + 6).reshape(2, 3) if i else np.linspace(n, n + 0.7, 6).reshape(2, 3))
                    det = {"method": meth, "arguments": kw, "backend": name}
                    with ck.case("wrapper", det):
                        g = gr.Generator(rng=fake, xp=xp)
                        for n in (1, 2):
                            x = getattr(g, meth)(**kw)
                            ck.ok(same(x, fake.out(n)) and nsname(x) == name, "the wrapper returns the generator's numbers in the backend", lambda: {**det, "got": x})
                            ck.ok(len(fake.calls) == n, "one draw per draw", det)
                        c = fake.calls[-1]
                        got = bound(c[0], c[1], c[2])
                        ck.ok(c[0] == meth and set(got) == set(kw) and all(same(got[k], kw[k]) for k in kw), "arguments are passed on", lambda: {**det, "call": c})
        for meth in ("random", "standard_normal"):
            with ck.case("wrapper", meth):
                x = getattr(gr.Generator(xp=xp), meth)(3, dtype=xp.float32)
                ck.ok(x.dtype == xp.float32, "requested dtype", {"method": meth, "backend": name})
        # seeds and defaults
        ref = {"numpy": lambda s: np.random.default_rng(s), "array_api_strict": lambda s: np.random.default_rng(s), "jax.numpy": lambda s: JG(s)}[name]
        for seed in (None, 42, 1, 7):
            kw = {} if seed is None else {"seed": seed}
            det = {"seed": seed, "backend": name}
            with ck.case("default generators", det):
                for mkgen in (lambda: gr.Generator(xp=xp, **kw), lambda: gr.default_rng(xp=xp, **kw)):
                    a, b, r = mkgen(), mkgen(), ref(42 if seed is None else seed)
                    for meth, kws in args.items():
                        x, y = getattr(a, meth)(**kws[0]), getattr(b, meth)(**kws[0])
                        ck.ok(same(x, y), "with the same seed every run is the same", det)
                        ck.ok(same(x, getattr(r, meth)(**kws[0])), "the default generator is that of the backend", {**det, "method": meth})
                        ck.ok(nsname(x) == name or (name == "numpy" and isinstance(x, (float, int))), "draws are arrays of the backend", {**det, "method": meth, "got": nsname(x)})
        # sequences of numbers as seeds
        if name != "jax.numpy":
            for seed in ([1, 2], [2, 1], [3], np.array([0, 1, 2]), [7, 7, 7, 7]):
                with ck.case("default generators", {"seed": seed, "backend": name}):
                    r = np.random.default_rng(seed).random(3)
                    ck.ok(all(same(g.random(3), r) for g in (gr.Generator(xp=xp, seed=seed), gr.default_rng(xp=xp, seed=seed))), "every number of a seed counts", {"seed": seed, "backend": name})
        with ck.case("default generators", name):
            cls = {"numpy": np.random.Generator, "jax.numpy": JG, "array_api_strict": gr.Generator}[name]
            ck.ok(isinstance(gr.default_rng(xp=xp), cls), "the default generator matches the backend", name)
            # an own generator is advanced, not copied
            r = np.random.default_rng(3)
            g = gr.Generator(rng=r, xp=xp)
            x = [npa(g.random(2)), npa(g.random(2))]
            ck.ok(same(np.concatenate(x), np.random.default_rng(3).random(4)) and r.random() == np.random.default_rng(3).random(5)[4], "draws come from the generator given", name)


def run(ck):
    q = ck.quick
    fh = ck.tlc_bg("JaxRng", {"Draws": '{"random", "normal", "poisson"}', "Fan": "{1, 2}", "MaxGen": 4, "Depth": 4 if q else 5},
                   invariants=["Fresh", "Distinct", "Unused", "Apart", "Emit"])
    ck.tlc("RngThreads", {"Threads": {1, 2, 3}, "Ops": 1 if q else 2, "Locked": True}, invariants=["Fresh", "Sequential", "Exclusive"], properties=["Ends"], name="RngThreads-locked")
    fs = [(n, ck.tlc_bg("RngThreads", {"Threads": set(range(1, n + 1)), "Ops": k, "Locked": False}, invariants=["Emit"], name=f"RngThreads-{n}x{k}")) for n, k in [(2, 2), (3, 1)]]
    wrapper(ck)
    shapes(ck)
    hs = fh.result()
    ck.rng.shuffle(hs)
    lines = []
    # seeds of the generators that the library makes itself
    for name, xp in BACKENDS:
        with ck.case("seeds", name):
            seeds = [0, 1, 2, 41, 42, 43, 2**31 - 1]
            outs = [npa(gr.Generator(seed=v, xp=xp).random(4)).tobytes() for v in seeds for _ in range(2)]
            ck.ok(outs[::2] == outs[1::2] and len(set(outs)) == len(seeds), "equal seeds give equal streams, different seeds different ones", {"seeds": seeds, "backend": name})
    dist = {"random": ["random", "uniform"], "normal": ["normal", "standard_normal"], "poisson": ["poisson", "multinomial"]}
    for m, h in enumerate(hs[: 200 if q else 1200]):
        log = [{**e, "op": dist[e["op"]][(m + i) % 2] if e["op"] in dist else e["op"]} for i, e in enumerate(h)]
        with ck.case("history of a generator", {"log": log}):
            ids = {}
            a, oa = history(log, m, ids)
            ck.ok(all(e.pop("ok", True) for e in a), "as many keys and generators as requested", {"log": log})
            lines += a
            ck.traces += 1
            if m % 4 == 0:
                ck.ok(history(log, m)[1] == oa, "with the same seed every run is the same", {"log": log})
                ck.ok(not set(history(log, m + 100000)[1]) & set(oa), "other seeds give other numbers", {"log": log})
    ck.sample({"history": hs[0]})
    ck.validate("JaxRngTrace", lines)
    progs = {2: [[["random", "random"], ["random", "random"]], [["random", "split"], ["spawn", "random"]], [["split", "spawn"], ["split", "random"]],
                 [["poisson", "normal"], ["multinomial", "uniform"]], [["spawn", "spawn"], ["standard_normal", "split"]]],
             3: [[["random"], ["random"], ["random"]], [["split"], ["spawn"], ["random"]], [["spawn"], ["spawn"], ["normal"]]]}
    for n, f in fs:
        s = f.result()
        ck.clauses["interleavings generated"] = ck.clauses.get("interleavings generated", 0) + len(s)
        s.sort(key=lambda r: (not r["race"], json.dumps(r)))
        race = [r for r in s if r["race"]]
        ck.rng.shuffle(race)
        rest = [r for r in s if not r["race"]]
        ck.rng.shuffle(rest)
        threads(ck, race[: 90 if q else 1200] + rest[: 20 if q else 200], progs[n])
    stress(ck)


main("C14", run)
