"""C21: transformations of fields (Transforms.tla, TransformsTrace.tla, Pairing.tla)."""
from transformcl import cltocorr, corrtocl

from vf import *  # noqa: F403

import glass.grf as gg


class Foreign:
    """A transformation of the user that knows normal fields and its own kind."""

    def __init__(self, lam):
        self.lamda = lam

    def scale(self, other):
        return self.lamda * (other.lamda if type(other) is Foreign else 1.0)

    def __call__(self, x, _var):
        return self.lamda * x

    def corr(self, other, x):
        return self.scale(other) * x if type(other) in (gg.Normal, Foreign) else NotImplemented

    def icorr(self, other, x):
        return x / self.scale(other) if type(other) in (gg.Normal, Foreign) else NotImplemented

    def dcorr(self, other, x):
        return self.scale(other) + 0 * x if type(other) in (gg.Normal, Foreign) else NotImplemented


class Unknown:
    def __call__(self, x, _var):
        return x

    def corr(self, other, x):
        return NotImplemented

    icorr = dcorr = corr


def build(t):
    lam, a = qf(t["lam"]), qf(t["a"])
    return {"N": lambda: gg.Normal(), "L": lambda: gg.Lognormal(lam), "S": lambda: gg.SquaredNormal(a, lam),
            "F": lambda: Foreign(lam), "U": lambda: Unknown()}[t["k"]]()


def tset(tier):
    q = lambda n, d=1: f"<<{n}, {d}>>"  # noqa: E731
    T = lambda k, lam, a="<<0, 1>>": f'[k |-> "{k}", lam |-> {lam}, a |-> {a}]'  # noqa: E731
    lams = [q(1), q(2), q(1, 3)] if tier else [q(1), q(2), q(1, 3), q(5, 2), q(3, 4)]
    sh = [q(0), q(1, 2), q(1)] if tier else [q(0), q(1, 2), q(1), q(1, 4), q(3, 5)]
    out = [T("N", q(1)), T("U", q(1))] + [T("L", v) for v in lams] + [T("S", v, a) for v in lams for a in sh] + [T("F", q(1)), T("F", q(3))]
    return "{" + ", ".join(out) + "}"


def formula(t, s, what, x):
    """Closed forms of the specification as functions on arrays."""
    lam = lambda v: qf(v["lam"])  # noqa: E731
    ks = {t["k"], s["k"]}
    if ks == {"N"}:
        return 0 * x + 1 if what == "dcorr" else x
    if ks == {"L", "N"} or "F" in ks:
        c = (lam(t) if t["k"] in "LF" else 1) * (lam(s) if s["k"] in "LF" else 1)
        return c * x if what == "corr" else x / c if what == "icorr" else c + 0 * x
    ll = lam(t) * lam(s)
    if ks == {"L"}:
        return ll * np.expm1(x) if what == "corr" else np.log1p(x / ll) if what == "icorr" else ll * np.exp(x)
    aa = qf(t["a"]) * qf(s["a"])
    return 2 * ll * x * (x + 2 * aa) if what == "corr" else np.sqrt(x / (2 * ll) + aa**2) - aa if what == "icorr" else 4 * ll * (x + aa)


def pairs(ck, recs):
    lines = []
    groups = {}
    for r in recs:
        groups.setdefault(json.dumps([r["t1"], r["t2"]]), []).append(r)
    for rs in groups.values():
        r0 = rs[0]
        t1, t2 = build(r0["t1"]), build(r0["t2"])
        ll = r0["t1"]["k"] == "L" and r0["t2"]["k"] == "L"
        xs = np.array([qf(r["x"]) for r in rs])
        arg = np.log(xs) if ll else xs
        for name, xp in BACKENDS:
            if name == "jax.numpy" and ck.quick and ck.rng.random() < 0.7:
                continue
            det = {"t1": r0["t1"], "t2": r0["t2"], "backend": name}
            ck.traces += len(rs)
            if r0["who"] == 0:
                for f in (gg.corr, gg.icorr, gg.dcorr):
                    ck.raises(NotImplementedError, "unsupported pairs are refused", lambda f=f: f(t1, t2, mk(xp, arg)), {**det, "function": f.__name__})
                if name == "numpy":
                    lines += [{"t1": r["t1"], "t2": r["t2"], "x": r["x"], "refused": True} for r in rs]
                continue
            with ck.case("correlations of a pair", det):
                a = mk(xp, arg)
                c = gg.corr(t1, t2, a)
                d = gg.dcorr(t1, t2, a)
                b = gg.icorr(t1, t2, mk(xp, npa(c)))
                ck.ok(nsname(c) == nsname(d) == nsname(b) == name and same(a, arg), "results are arrays of the backend", {**det, "got": [nsname(c), nsname(d), nsname(b)]})
                ec, ed = np.array([qf(r["val"]["corr"]) for r in rs]), np.array([qf(r["val"]["dcorr"]) for r in rs])
                ck.ok(close(c, ec, rtol=1e-12, atol=1e-13), "correlation of the transformed fields", lambda: {**det, "x": arg, "got": c, "expected": ec})
                ck.ok(close(d, ed, rtol=1e-12, atol=1e-13), "slope of the correlation", lambda: {**det, "x": arg, "got": d, "expected": ed})
                ck.ok(close(b, arg, rtol=1e-7, atol=1e-7), "the inverse undoes the correlation", lambda: {**det, "x": arg, "got": b})
                ck.ok(same(gg.corr(t2, t1, a), c) and same(gg.dcorr(t2, t1, a), d) and close(gg.icorr(t2, t1, mk(xp, npa(c))), b, rtol=1e-12, atol=1e-12), "swapping the fields changes nothing", det)
                if name == "numpy":
                    bb = np.exp(npa(b)) if ll else npa(b)
                    lines += [{"t1": r["t1"], "t2": r["t2"], "x": r["x"], "refused": False, "corr": snap(u, 20000, 1e-12), "dcorr": snap(v, 20000, 1e-12), "back": snap(w, dmax=50, tol=1e-7)}
                              for r, u, v, w in zip(rs, npa(c), npa(d), bb)]
    ck.validate("TransformsTrace", lines, {"Ts": "{}", "Xs": "{}", "H": "<<1, 1>>"})


def random_pairs(ck):
    """Parameters off the grid: correlations, inverses, slopes, and moments of realised values by quadrature."""
    z, w = np.polynomial.hermite_e.hermegauss(40)
    w = w / w.sum()
    for m in range(60 if ck.quick else 1000):
        k = ("NN", "LL", "LN", "NL", "SS")[m % 5]
        lam = lambda: float(ck.rng.choice([1.0, ck.rng.uniform(0.05, 4)]))  # noqa: E731
        par = [{"k": c, "lam": [lam(), 1], "a": [float(ck.rng.choice([0, 1, ck.rng.uniform()])) if c == "S" else 0, 1]} for c in k]
        t1, t2 = build(par[0]), build(par[1])
        var = [1 - p["a"][0] ** 2 if p["k"] == "S" else float(ck.rng.uniform(0.05, 1.5)) for p in par]
        lo = -par[0]["a"][0] * par[1]["a"][0] if k == "SS" else -1
        lim = math.sqrt(var[0] * var[1])
        x = np.sort(ck.rng.uniform(max(lo, -lim), lim, 9)) if lim > 0 else np.zeros(1)
        name, xp = BACKENDS[0 if m % 3 else ck.rng.integers(3)]
        det = {"t1": par[0], "t2": par[1], "variances": var, "backend": name}
        with ck.case("correlations of a pair", det):
            a = mk(xp, x)
            c, d = npa(gg.corr(t1, t2, a)), npa(gg.dcorr(t1, t2, a))
            b = npa(gg.icorr(t1, t2, mk(xp, c)))
            for what, got in (("corr", c), ("dcorr", d)):
                ck.ok(close(got, formula(par[0], par[1], what, x), rtol=1e-11, atol=1e-12), "closed form of " + what, lambda: {**det, "x": x, "got": got})
            ck.ok(close(b, x, rtol=1e-6, atol=1e-6), "the inverse undoes the correlation", lambda: {**det, "x": x, "got": b})
            h = 1e-5
            s = (npa(gg.corr(t1, t2, mk(xp, x + h))) - npa(gg.corr(t1, t2, mk(xp, x - h)))) / (2 * h)
            ck.ok(close(d, s, rtol=1e-6, atol=1e-7), "slope of the correlation", lambda: {**det, "x": x, "got": d, "expected": s})
            # realised values: E t1(X) = 0 and E t1(X) t2(Y) = corr
            for xc, cc in zip(x, c):
                l00 = math.sqrt(var[0])
                l10 = xc / l00 if l00 > 0 else 0.0
                Lc = np.array([[l00, 0], [l10, math.sqrt(max(var[1] - l10**2, 0))]])
                Z1, Z2 = np.meshgrid(z, z, indexing="ij")
                W = w[:, None] * w[None, :]
                X, Y = Lc[0, 0] * Z1, Lc[1, 0] * Z1 + Lc[1, 1] * Z2
                r1, r2 = npa(t1(mk(xp, X), var[0])), npa(t2(mk(xp, Y), var[1]))
                ck.ok(abs((W * r1).sum()) < 1e-6 and abs((W * r2).sum()) < 1e-6, "realised values have zero mean", lambda: {**det, "x": xc})
                ck.ok(abs((W * r1 * r2).sum() - cc) < 1e-5 * (1 + abs(cc)), "correlation is that of realised values", lambda: {**det, "x": xc, "got": cc, "expected": (W * r1 * r2).sum()})


def spectra(ck, recs):
    # one spectrum
    for m in range(30 if ck.quick else 400):
        k = ("NN", "LL", "LN", "NL", "SS")[m % 5]
        par = [{"k": c, "lam": [float(ck.rng.choice([1.0, 2.0, 0.4])), 1], "a": [float(ck.rng.uniform(0.5, 0.9)) if c == "S" else 0, 1]} for c in k]
        if m % 2:
            par[1] = par[0]
        t1, t2 = build(par[0]), build(par[1])
        n = int(ck.rng.choice([1, 2, 3, 10, 40]))
        cl = ck.rng.uniform(0.5, 1.0, n) * 0.02 / (1 + np.arange(n)) ** 1.5
        name, xp = BACKENDS[0]
        det = {"t1": par[0], "t2": par[1], "cl": cl}
        with ck.case("Gaussian spectrum", det):
            a = mk(xp, cl)
            g = gg.compute(a, t1, t2)
            ck.ok(close(g, corrtocl(formula(par[0], par[1], "icorr", cltocorr(cl))), rtol=1e-9, atol=1e-15), "Gaussian spectrum is that of the inverse", lambda: {**det, "got": g})
            ck.ok(close(corrtocl(gg.corr(t1, t2, cltocorr(npa(g)))), cl, rtol=1e-7, atol=1e-14), "the Gaussian spectrum realises the spectrum", lambda: {**det, "got": g})
            ck.ok(same(a, cl), "the spectrum is not changed", det)
            if m % 2:
                ck.ok(same(gg.compute(a, t1), g), "one transformation stands for both", det)
    # lists
    kinds = {"L": lambda m: gg.Lognormal(0.5 + 0.25 * m), "N": lambda m: gg.Normal()}
    names = {"L": lambda m: {"k": "L", "lam": [0.5 + 0.25 * m, 1]}, "N": lambda m: {"k": "N"}}
    for r in recs:
        fields = [kinds[f](m) for m, f in enumerate(r["fields"])]
        cls = [np.ones(3)] * r["count"] if r["status"] == "refused" else [np.array([0.01 / (1 + p) / (1 + v) for v in range(n)]) for p, n in enumerate(r["lens"])]
        det = {"fields": r["fields"], "lengths": r["lens"]}
        ck.traces += 1
        if r["status"] == "refused":
            ck.raises(ValueError, "lists of the wrong length are refused", lambda: glass.compute_gaussian_spectra(fields, cls), det)
            continue
        with ck.case("list of spectra", det):
            gls = glass.compute_gaussian_spectra(fields, cls)
            ck.ok(len(gls) == len(r["out"]), "one Gaussian spectrum per spectrum", det)
            for p, (o, g) in enumerate(zip(r["out"], gls)):
                if o["empty"]:
                    ck.ok(npa(g).shape == (0,) and g is not cls[p], "empty spectra stay empty", {**det, "position": p})
                    continue
                a, b = names[r["fields"][o["i"]]](o["i"]), names[r["fields"][o["j"]]](o["j"])
                e = corrtocl(formula(a, b, "icorr", cltocorr(cls[p])))
                ck.ok(close(g, e, rtol=1e-9, atol=1e-15), "the map of the right pair is applied", lambda: {**det, "position": p, "got": g, "expected": e})
    # fields of shells
    for n in range(4):
        with ck.case("fields of shells", n):
            sh = [glass.RadialWindow(np.array([0.0, 1.0 + i]), np.ones(2), 0.5 + i) for i in range(n)]
            ck.ok([type(f) for f in glass.gaussian_fields(sh)] == [gg.Normal] * n, "one normal field per shell", n)
            lf = glass.lognormal_fields(sh)
            ck.ok(all(type(f) is gg.Lognormal and f.lamda == 1.0 for f in lf) and len(lf) == n, "one lognormal field per shell", n)
            lf = glass.lognormal_fields(sh, lambda z: 2 * z + 1)
            ck.ok([f.lamda for f in lf] == [2 * (0.5 + i) + 1 for i in range(n)], "the shift of every shell at its redshift", n)
            lf = glass.lognormal_fields(sh, lambda z: z - 0.5)
            ck.ok([f.lamda for f in lf] == [float(i) for i in range(n)], "a vanishing shift is a shift", n)
            lf = glass.lognormal_fields(sh, glass.lognormal_shift_hilbert2011)
            ck.ok(close([f.lamda for f in lf], [1e-3 * (8 * z + 29 * z * z - 7.9 * z**3 + 0.65 * z**4) for z in [0.5 + i for i in range(n)]], rtol=1e-9), "published shift", n)


def bulk(ck):
    """Whole maps and long spectra."""
    for m in range(12 if ck.quick else 100):
        name, xp = BACKENDS[m % 3]
        k = "NLS"[m // 3 % 3]
        lam, a, var = float(ck.rng.uniform(0.2, 3)), float(ck.rng.uniform(0.1, 0.9)), float(ck.rng.uniform(0.1, 1.2))
        p = {"k": k, "lam": [lam, 1], "a": [a, 1]}
        x = ck.rng.standard_normal((12 * 64**2,)) * math.sqrt(var)
        det = {"field": p, "variance": var, "backend": name}
        with ck.case("realised maps", det):
            t = build(p)
            e = {"N": x, "L": lam * np.expm1(x - var / 2), "S": lam * ((x - a) ** 2 - 1)}[k]
            arg = mk(xp, x)
            v = 1 - a * a if k == "S" else var
            got = t(arg, v)
            ck.traces += 1
            ck.ok(close(got, e, rtol=1e-12, atol=1e-13) and nsname(got) == name and same(arg, x), "realised maps", lambda: {**det, "got": npa(got)[:5], "expected": e[:5]})
    for m in range(4 if ck.quick else 40):
        k = ("LL", "LN", "SS", "NN")[m % 4]
        par = [{"k": c, "lam": [float(ck.rng.choice([1.0, 2.0, 0.4])), 1], "a": [float(ck.rng.uniform(0.5, 0.9)) if c == "S" else 0, 1]} for c in k]
        n = int(ck.rng.choice([300, 1000, 3000]))
        cl = ck.rng.uniform(0.9, 1.0, n) * 1e-3 / (1 + np.arange(n)) ** 1.8
        det = {"t1": par[0], "t2": par[1], "n": n}
        with ck.case("Gaussian spectrum", det, timeout=60):
            t1, t2 = build(par[0]), build(par[1])
            g = npa(gg.compute(cl.copy(), t1, t2))
            ck.ok(close(corrtocl(formula(par[0], par[1], "corr", cltocorr(g))), cl, rtol=1e-6, atol=1e-13), "the Gaussian spectrum realises the spectrum", det)


    for m in range(12 if ck.quick else 60):
        # far from the origin: strongly anticorrelated fields and strong fields
        name, xp = BACKENDS[m % 3]
        l1, l2 = (float(v) for v in ck.rng.uniform(0.05, 4, 2))
        p = [{"k": "L", "lam": [v, 1], "a": [0, 1]} for v in (l1, l2)]
        x = np.concatenate([np.linspace(-9, 6, 31), 10.0 ** np.arange(-14, 0), -(10.0 ** np.arange(-14, 0))])
        det = {"fields": p, "backend": name}
        ck.traces += 1
        with ck.case("correlations of a pair", det):
            t1, t2 = build(p[0]), build(p[1])
            c, d = npa(gg.corr(t1, t2, mk(xp, x))), npa(gg.dcorr(t1, t2, mk(xp, x)))
            ck.ok(close(c, l1 * l2 * np.expm1(x), rtol=1e-12, atol=0), "closed form of corr", {**det, "x": x, "got": c})
            ck.ok(close(d, l1 * l2 * np.exp(x), rtol=1e-12, atol=0), "closed form of dcorr", {**det, "x": x, "got": d})
            ck.ok(close(npa(gg.icorr(t1, t2, mk(xp, c))), x, rtol=1e-9, atol=0), "the inverse undoes the correlation", {**det, "x": x})
    for m in range(9 if ck.quick else 60):
        # spectra that reach beyond the resolution of the map: the variance is that of all multipoles
        n, nside = [(40, 1), (60, 8), (25, 2)][m % 3]
        name, xp = BACKENDS[[0, 2, 1][m // 3 % 3]]
        gl = ck.rng.uniform(0.01, 0.03, n)
        z = ck.rng.normal(size=n * (n + 1))
        var = float(((2 * np.arange(n) + 1) * gl).sum() / 4 / math.pi)
        p = {"k": "L", "lam": [float(ck.rng.uniform(0.2, 3)), 1], "a": [0, 1]}
        det = {"field": p, "multipoles": n, "nside": nside, "backend": name}
        ck.traces += 1
        with ck.case("realised maps", det):
            x = npa(next(iter(glass.generate([gg.Normal()], [mk(xp, gl)], nside, rng=Script(z=z)))))
            y = npa(next(iter(glass.generate([build(p)], [mk(xp, gl)], nside, rng=Script(z=z)))))
            ck.ok(close(y, p["lam"][0] * np.expm1(x - var / 2), rtol=1e-9, atol=1e-10), "realised maps", {**det, "variance": var})
    for m in range(6 if ck.quick else 24):
        # spectra in small units: in the limit of small fields, a lognormal field is its scale times a Gaussian one
        unit = [1e-8, 1e-13, 1e-16][m % 3]
        ts = [[gg.Normal(), gg.Lognormal()], [gg.Lognormal(0.5)]][m // 3 % 2]
        cls = [unit * ck.rng.uniform(0.8, 1.2, 12) / (1 + np.arange(12)) ** 2 * w for w in (1, 1, 0.3)[: len(ts) * (len(ts) + 1) // 2]]
        det = {"unit": unit, "fields": len(ts)}
        ck.traces += 1
        with ck.case("Gaussian spectra in small units", det):
            got = glass.solve_gaussian_spectra(ts, [c.copy() for c in cls])
            for g, c, (i, j) in zip(got, cls, [(0, 0), (1, 1), (1, 0)]):
                ck.ok(close(npa(g) / unit, c / unit / (0.25 if len(ts) == 1 else 1), rtol=1e-3), "small spectra are nearly Gaussian", {**det, "pair": (i, j), "got": npa(g), "spectrum": c})


def run(ck):
    q = ck.quick
    xs = ["<<0, 1>>", "<<1, 2>>", "<<1, 4>>", "<<-1, 4>>", "<<-1, 2>>", "<<3, 4>>", "<<1, 1>>", "<<2, 1>>"] + ([] if q else ["<<1, 8>>", "<<7, 8>>", "<<-3, 4>>", "<<3, 2>>", "<<-1, 8>>"])
    f = ck.tlc_bg("Transforms", {"Ts": tset(q), "Xs": "{" + ", ".join(xs) + "}", "H": "<<1, 16>>"},
                  invariants=["Resolved", "Swapped", "ZeroIsZero", "Moments", "Slope", "OneToOne", "Emit"], properties=["Ends"])
    p = ck.tlc("Pairing", {"MaxN": 2 if q else 3, "Lens": {0, 3, 6} if q else {0, 4}, "Kinds": '{"L", "N"}'},
               invariants=["EveryPair", "AutoFirst", "Position", "Refused", "Emit"], properties=["Ends"])
    if q:
        p += ck.tlc("Pairing", {"MaxN": 4, "Lens": {0, 1, 4}, "Kinds": '{"L", "N"}'}, invariants=["EveryPair", "AutoFirst", "Position", "Refused", "Emit"], simulate=(250, 14), name="Pairing-sim")
    else:
        p += ck.tlc("Pairing", {"MaxN": 5, "Lens": {0, 1, 4}, "Kinds": '{"L", "N"}'}, invariants=["EveryPair", "AutoFirst", "Position", "Refused", "Emit"], simulate=(3000, 20), name="Pairing-sim")
    spectra(ck, p)
    bulk(ck)
    random_pairs(ck)
    recs = f.result()
    ck.sample({"pair": recs[len(recs) // 2]})
    pairs(ck, recs)


main("C21", run)
