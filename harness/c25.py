"""C25: array helpers entry by entry (Arr.tla, Axes.tla, Helpers.tla, Slices.tla, HelpersTrace.tla)."""
from vf import *  # noqa: F403

import glass.arraytools as at
import glass.harmonics

Z = lambda *v: "<<" + ", ".join(f"<<{Fraction(x).numerator}, {Fraction(x).denominator}>>" for x in v) + ">>"  # noqa: E731
SETS = lambda *v: "{" + ", ".join(v) + "}"  # noqa: E731


def arr(a):
    """Specification array to numpy."""
    return np.array([qf(v) for v in a["v"]], float).reshape(a["sh"])


def rec(a, dmax=5000):
    """Array to specification array; whole numbers stay exact."""
    a = npa(a)
    return {"sh": list(a.shape), "v": [snap(v, dmax) for v in a.ravel()]}


def axes(ck, recs):
    for name, xp in BACKENDS:
        sub = recs
        if xp is JX:
            sub = [recs[int(i)] for i in ck.rng.permutation(len(recs))[: 150 if ck.quick else 1200]]
        elif ck.quick:
            sub = [recs[int(i)] for i in ck.rng.permutation(len(recs))[:9000 if xp is np else 5000]]
        for r in sub:
            f, trail = r["mode"] == "first", r["n"]
            clause = "the first axis is common, all others follow the usual rules" if f else "all but the trailing axes follow the usual rules"
            d = {"shapes": [a["sh"] for a in r["l"]], "trailing": trail, "backend": name, "helper": r["mode"]}
            a = [mk(xp, arr(x)) for x in r["l"]]
            call = (lambda: at.broadcast_first(*a)) if f else (lambda: at.broadcast_leading_axes(*zip(a, trail, strict=True)))
            ck.traces += 1
            if not r["out"]:
                ck.raises(Exception, "sizes that do not fit are refused", call, d)
                continue
            with ck.case(clause, d):
                got = call()
                if not f:
                    dims, *got = got
                    k = len(r["out"][0]["sh"]) - trail[0]
                    ck.ok(tuple(dims) == tuple(r["out"][0]["sh"][:k]), "the broadcast shape is reported", lambda: {**d, "got": dims})
                ck.ok(len(got) == len(a) and all(same(g, arr(o)) and nsname(g) == name for g, o in zip(got, r["out"], strict=True)), clause,
                      lambda: {**d, "got": got, "expected": r["out"]})


def functions(ck, recs):
    names = {"product": "trapezoids of the product on the union of the grids over the common range",
             "bias": "effective bias is the weighted average", "cum": "cumulative integral adds trapezoids from zero along the last axis"}
    for name, xp in BACKENDS:
        if xp is JX or ck.quick:
            n = (60 if ck.quick else 500) if xp is JX else 3000
            sub = [recs[int(i)] for i in ck.rng.permutation(len(recs))[:n]]
        else:
            sub = recs
        for m, r in enumerate(sub):
            d = {"ask": r["ask"], "functions": r["fs"], "backend": name}
            sc = [1.0, 0.25, 1 / 3][m % 3] if r["ask"] != "product" or len(r["fs"]) > 1 else 1.0
            fs = [(mk(xp, np.array(qf(f["x"], 1)) * sc), mk(xp, qf(f["y"], 1))) for f in r["fs"]]
            ck.traces += 1
            with ck.case(names[r["ask"]], d):
                if r["ask"] == "product":
                    got, want = at.trapezoid_product(*fs), qf(r["ans"]["value"]) * sc
                elif r["ask"] == "bias":
                    w = glass.RadialWindow(fs[1][0], fs[1][1], 0.5)
                    got, want = glass.effective_bias(*fs[0], w), qf(r["ans"]["value"])
                else:
                    got, want = at.cumulative_trapezoid(fs[0][1], fs[0][0]), np.array(qf(r["ans"]["value"], 1)) * sc
                ck.ok(close(got, want, 1e-9, 1e-9 * max(1, float(np.max(np.abs(want))))), names[r["ask"]], lambda: {**d, "got": got, "expected": want})
                ck.ok(nsname(got) == name, "result belongs to the backend of the input", lambda: {**d, "got": nsname(got)})


def slices(ck, recs):
    for name, xp in BACKENDS:
        sub = recs
        if xp is JX:
            sub = [recs[int(i)] for i in ck.rng.permutation(len(recs))[: 120 if ck.quick else 800]]
        for m, r in enumerate(sub):
            q, ans = r["q"], r["ans"]
            ask = q["ask"]
            d = {"q": q, "backend": name}
            ck.traces += 1
            integer = m % 4 == 3 and xp is not XS   # whole numbers as integers
            if ask in ("interp", "period"):
                a, x, t = arr(q["a"]), np.array(qf(q["x"], 1)), arr(q["t"])
                ax = q["ax"] - 1 if m % 2 else q["ax"] - 1 - a.ndim
                kw = {}
                if ask == "period":
                    kw["period"] = qf(q["pad"])
                    clause = "interpolation is periodic"
                    if m % 5 == 0:
                        kw["period"] = -kw["period"]
                    if xp is JX and kw["period"] < 0:
                        kw["period"] *= -1
                else:
                    for n, p in zip(("left", "right"), q["pad"], strict=True):
                        if p:
                            kw[n] = qf(p)
                    clause = "every slice is interpolated linearly"
                if xp is JX and ("left" in kw) != ("right" in kw):
                    continue   # jax.numpy.interp of this version mixes up calls that give only one of left, right, period
                with ck.case(clause, d):
                    fq = mk(xp, a, int) if integer else mk(xp, a)
                    got = at.ndinterp(mk(xp, t), mk(xp, x), fq, *([ax] if ax != -1 or m % 3 else []), **kw)
                    ck.ok(close(got, arr(ans)), clause, lambda: {**d, "kw": kw, "axis": ax, "got": got, "expected": arr(ans)})
                    ck.ok(nsname(got) == name, "result belongs to the backend of the input", lambda: {**d, "got": nsname(got)})
                    if ask == "interp" and not q["t"]["sh"] and xp is np:
                        ck.ok(close(at.ndinterp(float(t), mk(xp, x), fq, ax, **kw), arr(ans)), clause, d)
            elif ask == "cum":
                with ck.case("cumulative integral adds trapezoids from zero along the last axis", d):
                    a, x = arr(q["a"]), np.array(qf(q["x"], 1))
                    whole = bool(np.all(x == np.round(x)))
                    for fi, xi, full in [(0, 0, 0), (0, 0, 1)] + ([(1, 1, 0), (1, 0, 0)] if whole else []):
                        xx = np.broadcast_to(x, a.shape) if full else x
                        got = at.cumulative_trapezoid(mk(xp, a, int if fi else float), mk(xp, xx, int if xi else float))
                        ck.ok(close(got, arr(ans)), "cumulative integral adds trapezoids from zero along the last axis",
                              lambda: {**d, "integers": (fi, xi), "got": got, "expected": arr(ans)})
                        ck.ok(nsname(got) == name and npa(got).dtype == np.float64, "result belongs to the backend of the input", lambda: {**d, "got": nsname(got)})
            elif ask == "weights":
                with ck.case("weights are normalised over shells, then biased", d):
                    a = arr(q["a"])
                    bs = [None] if not q["b"] else [mk(xp, arr(q["b"][0]))]
                    if q["b"] and not q["b"][0]["sh"]:
                        bs += [float(bs[0]), int(bs[0])]
                    for b in bs:
                        got = glass.position_weights(mk(xp, a), *([] if b is None and m % 2 else [b]))
                        ck.ok(close(got, arr(ans)), "weights are normalised over shells, then biased", lambda: {**d, "bias": b, "got": got, "expected": arr(ans)})
                        ck.ok(nsname(got) == name, "result belongs to the backend of the input", lambda: {**d, "got": nsname(got)})
            elif ask == "model":
                dl, b = arr(q["a"]), np.array(q["b"]["v"], float).reshape(q["b"]["sh"])
                for fn, key, clause in [(glass.linear_bias, "lin", "linear bias multiplies"), (glass.loglinear_bias, "log", "log-linear bias multiplies the logarithm")]:
                    with ck.case(clause, d):
                        for bb in [mk(xp, b)] + ([float(b), int(b)] if b.ndim == 0 else []):
                            got = fn(mk(xp, dl), bb)
                            ck.ok(close(got, arr(ans[key])), clause, lambda: {**d, "got": got, "expected": arr(ans[key])})
                            ck.ok(nsname(got) == name, "result belongs to the backend of the input", lambda: {**d, "got": nsname(got)})
                            # close to empty, and far from the mean
                            de, be = ck.rng.choice([-1 + 2.0**-12, -1 + 2.0**-40, -0.9990234375, -0.5, 3.0, 2.0**20 - 1, -1.0], dl.shape), np.abs(b)
                            got = fn(mk(xp, de), mk(xp, be))
                            with np.errstate(all="ignore"):
                                want = be * de if key == "lin" else (1 + de) ** be - 1
                            ok = np.ones(want.shape, bool) if key == "lin" else np.broadcast_to((de > -1) & (be != 0), want.shape)
                            ck.ok(close(npa(got)[ok], want[ok], rtol=1e-9, atol=1e-15) and npa(got).shape == want.shape, clause, lambda: {"delta": de, "b": be, "got": got, "expected": want, "backend": name})
            else:
                with ck.case("coefficients are multiplied by the factor of their own multipole", d):
                    for ph in (1, 1j, 0.6 - 0.8j):
                        alm = np.array(q["alm"]) * ph
                        got = glass.harmonics.multalm(mk(xp, alm, complex), mk(xp, q["bl"], complex if xp is XS else float))
                        ck.ok(close(got, np.array(ans) * ph), "coefficients are multiplied by the factor of their own multipole", lambda: {**d, "got": got, "expected": ans})
                        ck.ok(nsname(got) == name, "result belongs to the backend of the input", lambda: {**d, "got": nsname(got)})


def record(ck):
    """Larger inputs at random, answers recorded for TLC."""
    rng = ck.rng
    lines, info = [], []
    ri = lambda lo, hi, sh=None: rng.integers(lo, hi + 1, sh)  # noqa: E731

    def grid(n, lo=-6, hi=20):
        return np.sort(rng.choice(np.arange(lo, hi), n, replace=False)) * 1.0

    def some(maxdim, sizes):
        return tuple(int(rng.choice(sizes)) for _ in range(int(ri(0, maxdim))))

    for m in range(260 if ck.quick else 2500):
        name, xp = BACKENDS[0 if m % 2 else 2] if m % 25 else BACKENDS[1]
        kind = ["first", "leading", "interp", "product", "bias", "cum", "weights", "alm"][m % 8]
        with ck.case("array helpers", {"kind": kind, "backend": name}):
            if kind in ("first", "leading"):
                base = some(3, [1, 2, 3, 4]) or (2,)
                n = int(ri(2, 4))
                l, tr = [], []
                for _ in range(n):
                    if kind == "first":
                        k = int(ri(0, len(base)))
                        sh = (() if k == 0 else (base[0], *base[len(base) - k + 1:])) if k else ()
                        t = 0
                    else:
                        sh = base[len(base) - int(ri(0, len(base))):]
                        t = int(ri(0, 2))
                        tail = tuple(int(ri(1, 3)) for _ in range(t))
                    sh = tuple(1 if rng.random() < 0.3 else s for s in sh)
                    sh = sh if kind == "first" else (*sh, *tail)
                    l.append(ri(-99, 99, sh).astype(float))
                    tr.append(t)
                a = [mk(xp, x) for x in l]
                got = at.broadcast_first(*a) if kind == "first" else at.broadcast_leading_axes(*zip(a, tr, strict=True))[1:]
                lines.append({"ev": kind, "l": [rec(x) for x in l], "n": tr, "out": [rec(g) for g in got]})
            elif kind == "interp":
                sh = some(2, [1, 2, 3]) or ()
                n = int(ri(1, 12))
                ax = int(ri(0, len(sh)))
                sh = (*sh[:ax], n, *sh[ax:])
                a, x = ri(-20, 20, sh).astype(float), grid(n)
                t = ri(-40, 100, some(2, [1, 2, 4])) / 4
                pad = [[] if rng.random() < 0.5 else [int(ri(-9, 9)), 1] for _ in range(2)]
                if xp is JX:
                    pad = [pad[0] and pad[1], pad[0] and pad[1]]
                kw = {k: float(p[0]) for k, p in zip(("left", "right"), pad, strict=True) if p}
                got = at.ndinterp(mk(xp, t), mk(xp, x), mk(xp, a), axis=ax if m % 16 < 8 else ax - len(sh), **kw)
                lines.append({"ev": kind, "a": rec(a), "ax": ax + 1, "x": rec(x)["v"], "t": rec(t), "pad": pad, "out": rec(got)})
            elif kind == "product":
                k = int(ri(1, 3))
                fs = []
                for _ in range(k):
                    x = np.arange(0, 9)
                    x = x[rng.random(9) < 0.5]
                    lo = int(ri(0, 3))
                    x = np.unique(np.concatenate([x[x >= lo], [4.0, 5.0]]))   # pieces of length 1, 2, 3, ...
                    if np.any(np.diff(x) > 4):
                        x = np.arange(x[0], x[-1] + 1)
                    fs.append((x * 1.0, ri(-3, 3, x.size) * 1.0))
                got = at.trapezoid_product(*[(mk(xp, x), mk(xp, y)) for x, y in fs])
                lines.append({"ev": kind, "fs": [{"x": rec(x)["v"], "y": rec(y)["v"]} for x, y in fs], "out": snap(got, 20000)})
            elif kind == "bias":
                x = np.arange(int(ri(-2, 1)), int(ri(3, 6))) * 1.0
                x2 = np.arange(int(ri(-2, 1)), int(ri(3, 6))) * 1.0
                y, w = ri(-3, 4, x.size) * 1.0, ri(0, 3, x2.size) * 1.0
                w[-1] += 1
                got = glass.effective_bias(mk(xp, x), mk(xp, y), glass.RadialWindow(mk(xp, x2), mk(xp, w), 0.0))
                lines.append({"ev": kind, "fs": [{"x": rec(x)["v"], "y": rec(y)["v"]}, {"x": rec(x2)["v"], "y": rec(w)["v"]}], "out": snap(got, 20000)})
            elif kind == "cum":
                n = int(ri(1, 40))
                a, x = ri(-9, 9, (*some(2, [1, 2, 3]), n)) * 1.0, np.cumsum(ri(1, 4, n)) / 2
                got = at.cumulative_trapezoid(mk(xp, a), mk(xp, x))
                lines.append({"ev": kind, "a": rec(a), "x": rec(x)["v"], "out": rec(got)})
            elif kind == "weights":
                n = int(ri(1, 9))
                a = ri(1, 9, (n, *some(2, [1, 2, 3]))) * 1.0
                b = None if m % 3 == 0 else ri(-4, 4, [(), (1,), (n,), (n, *a.shape[1:]), (n, 2, *[1] * (a.ndim - 1))][int(ri(0, 4))]) * 1.0
                got = glass.position_weights(mk(xp, a), None if b is None else mk(xp, b))
                lines.append({"ev": kind, "a": rec(a), "b": [] if b is None else [rec(b)], "out": rec(got)})
            else:
                lm = int(ri(0, 24))
                alm, bl = ri(-99, 99, (lm + 1) * (lm + 2) // 2), ri(-9, 9, lm + 1)
                got = npa(glass.harmonics.multalm(mk(xp, alm, complex), mk(xp, bl, complex if xp is XS else float)))
                out = [int(v) for v in got.real]
                ck.ok(bool(np.all(got == np.array(out))), "coefficients are multiplied by the factor of their own multipole", {"alm": alm, "bl": bl})
                lines.append({"ev": kind, "alm": alm.tolist(), "bl": bl.tolist(), "out": out})
            info.append(name)
    ck.validate("HelpersTrace", lines)


def bulk(ck):
    """Grids and maps as fine as those of real simulations."""
    rng = ck.rng

    def product(fs):
        lo, hi = max(f[0][0] for f in fs), min(f[0][-1] for f in fs)
        x = np.unique(np.concatenate([f[0][(f[0] >= lo) & (f[0] <= hi)] for f in fs]))
        y = np.prod([np.interp(x, *f) for f in fs], axis=0)
        return float(((y[1:] + y[:-1]) / 2 * np.diff(x)).sum())

    for m in range(9 if ck.quick else 90):
        name, xp = BACKENDS[m % 3]
        gr = lambda n: np.cumsum(rng.uniform(0.1, 2, n)) / n + rng.uniform(0, 0.2)  # noqa: E731
        n, k = int(rng.choice([200, 1000, 5000])), int(rng.choice([3, 20]))
        x, a = gr(n), rng.standard_normal((k, n))
        t = rng.uniform(-0.2, 1.5, (2, 700))
        t[0, :50] = x[rng.integers(0, n, 50)]
        d = {"points": n, "rows": k, "backend": name}
        ck.traces += 1
        with ck.case("every slice is interpolated linearly", d):
            want = np.stack([np.interp(t, x, r) for r in a])
            ck.ok(close(at.ndinterp(mk(xp, t), mk(xp, x), mk(xp, a)), want, rtol=1e-9, atol=1e-11), "every slice is interpolated linearly", d)
            ck.ok(close(at.ndinterp(mk(xp, t), mk(xp, x), mk(xp, a.T.copy()), axis=0), np.moveaxis(want, 0, -1), rtol=1e-9, atol=1e-11), "every slice is interpolated linearly", {**d, "axis": 0})
        with ck.case("cumulative integral adds trapezoids from zero along the last axis", d):
            want = np.concatenate([np.zeros((k, 1)), np.cumsum((a[:, 1:] + a[:, :-1]) / 2 * np.diff(x), axis=-1)], axis=-1)
            ck.ok(close(at.cumulative_trapezoid(mk(xp, a), mk(xp, x)), want, rtol=1e-9, atol=1e-11), "cumulative integral adds trapezoids from zero along the last axis", d)
            xs = np.cumsum(rng.uniform(0.1, 2, (k, n)), axis=-1) / n
            want = np.concatenate([np.zeros((k, 1)), np.cumsum((a[:, 1:] + a[:, :-1]) / 2 * np.diff(xs), axis=-1)], axis=-1)
            ck.ok(close(at.cumulative_trapezoid(mk(xp, a), mk(xp, xs)), want, rtol=1e-9, atol=1e-11), "cumulative integral adds trapezoids from zero along the last axis", {**d, "x": "rows"})
        with ck.case("trapezoids of the product on the union of the grids over the common range", d):
            fs = [(gr(int(rng.choice([50, 300, 1000]))),) for _ in range(int(rng.integers(1, 4)))]
            fs = [(f[0], rng.uniform(0.1, 2, f[0].size)) for f in fs]
            if m % 2:   # knots in common
                fs.append((fs[0][0][5:-5].copy(), rng.uniform(0.1, 2, fs[0][0].size - 10)))
            want = product(fs)
            got = at.trapezoid_product(*[(mk(xp, u), mk(xp, v)) for u, v in fs])
            ck.ok(close(got, want, rtol=1e-9), "trapezoids of the product on the union of the grids over the common range", {**d, "got": float(got), "expected": want})
            w = glass.RadialWindow(mk(xp, fs[0][0]), mk(xp, fs[0][1]), 0.5)
            bz = (gr(120), rng.uniform(0.5, 2, 120))
            got, want = glass.effective_bias(mk(xp, bz[0]), mk(xp, bz[1]), w), product([bz, fs[0]]) / product([fs[0]])
            ck.ok(close(got, want, rtol=1e-9), "effective bias is the weighted average", {**d, "got": float(got), "expected": want})
        with ck.case("linear bias multiplies", d):
            dl = rng.uniform(-1, 5, 12 * 64**2)
            b = float(rng.uniform(0.5, 2))
            ck.ok(close(glass.linear_bias(mk(xp, dl), b), b * dl, rtol=1e-13), "linear bias multiplies", d)
            ck.ok(close(glass.loglinear_bias(mk(xp, dl), b), (1 + dl) ** b - 1, rtol=1e-10, atol=1e-13), "log-linear bias multiplies the logarithm", d)
        with ck.case("coefficients are multiplied by the factor of their own multipole", d):
            lm = int(rng.choice([64, 200, 300] if name == "numpy" else [64]))
            ll = np.repeat(np.arange(lm + 1), np.arange(lm + 1) + 1)   # GLASS order
            alm, bl = rng.standard_normal(ll.size) + 1j * rng.standard_normal(ll.size), rng.standard_normal(lm + 1)
            got = glass.harmonics.multalm(mk(xp, alm, complex), mk(xp, bl, complex if xp is XS else float))
            ck.ok(close(got, alm * bl[ll], rtol=1e-13), "coefficients are multiplied by the factor of their own multipole", {**d, "lmax": lm})
        with ck.case("weights are normalised over shells, then biased", d):
            s, nb = int(rng.choice([30, 100])), int(rng.choice([1, 10]))
            a, b = rng.uniform(0, 3, (s, nb)), rng.uniform(0.5, 2, (s, nb))
            got = glass.position_weights(mk(xp, a), mk(xp, b))
            ck.ok(close(got, a / a.sum(0) * b, rtol=1e-12), "weights are normalised over shells, then biased", d)
            for unit in (1e-12, 1e15):
                got = glass.position_weights(mk(xp, a * unit), mk(xp, b))
                ck.ok(close(got, a / a.sum(0) * b, rtol=1e-12), "weights are normalised over shells, then biased", {**d, "unit": unit})


JX, XS = BACKENDS[1][1], BACKENDS[2][1]


def run(ck):
    q = ck.quick
    shapes = "{<<>>, <<1>>, <<2>>, <<3>>, <<1, 1>>, <<2, 1>>, <<1, 3>>, <<2, 3>>, <<3, 2>>, <<2, 2>>, <<1, 2, 3>>, <<2, 1, 3>>, <<2, 3, 1>>}"
    if not q:
        shapes = shapes[:-1] + ", <<0>>, <<0, 2>>, <<2, 0>>, <<4>>, <<2, 2, 2>>, <<3, 1>>, <<1, 3, 2, 1>>}"
    jobs = [ck.tlc_bg("Axes", {"Shapes": shapes, "MaxArrays": 2, "MaxTrail": 2}, invariants=["OneShape", "Again", "OwnEntries", "Refused", "Rows", "Emit"]),
            ck.tlc_bg("Axes", {"Shapes": "{<<>>, <<1>>, <<2>>, <<3, 1>>, <<1, 2>>, <<2, 3>>" + ("" if q else ", <<3>>, <<2, 1, 2>>") + "}", "MaxArrays": 3, "MaxTrail": 1},
                      invariants=["OneShape", "Again", "OwnEntries", "Refused", "Rows", "Emit"], name="Axes3")]
    grids = [Z(0, 1), Z(0, 2), Z(1, 2, 3), Z(0, 1, 3), Z(2, 4), Z("1/2", "3/2", "5/2"), Z(3, 4), Z(4, 5), Z(-1, 0, 1, 2), Z("3/2", 2), Z(0, "1/2", 4)]
    big = [Z(0), Z(2), Z(-2, 6), Z(-1, "1/3", 5), Z(0, 1, 2, 3, 4, 5)]
    ys = Z(2, -1, 3, 0, 1, 5, -2)
    what = '{"product", "bias", "cum"}'
    jobs.append(ck.tlc_bg("Helpers", {"Grids": SETS(*grids, *big), "Ys": ys, "MaxF": 2, "What": what},
                          invariants=["Symmetric", "Neutral", "NoRange", "Additive", "ConstantBias", "CumLaw", "Emit"]))
    jobs.append(ck.tlc_bg("Helpers", {"Grids": SETS(*(grids[2:5] if q else grids[:6])), "Ys": ys, "MaxF": 3, "What": '{"product"}'},
                          invariants=["Symmetric", "Neutral", "NoRange", "Emit"], name="Helpers3"))
    jobs.append(ck.tlc_bg("Slices", {
        "Shapes": "{<<1>>, <<3>>, <<2, 3>>, <<3, 2>>, <<2, 2, 3>>, <<3, 1>>, <<2>>, <<>>, <<3, 2, 2>>}" if q else
                  "{<<1>>, <<3>>, <<2, 3>>, <<3, 2>>, <<2, 2, 3>>, <<3, 1>>, <<2>>, <<>>, <<3, 2, 2>>, <<1, 3>>, <<4>>, <<4, 2>>, <<2, 4>>, <<2, 3, 2>>}",
        "XShapes": "{<<>>, <<1>>, <<4>>, <<2, 2>>}", "Grids": "<<" + ", ".join(["{" + Z(1) + "}", SETS(Z(0, 1), Z("1/2", 2)), SETS(Z(0, 1, 3), Z(1, "3/2", 2), Z(-2, 5, 6)),
                                                      SETS(Z(0, 1, 2, 4), Z(-1, 0, "5/2", 3))]) + ">>",
        "Points": Z(-3, "1/2", 1, "3/2", 0, "7/4", 2, 3, "5/2", 9, -2), "Pads": "{<<<<>>, <<>>>>, <<<<0, 1>>, <<>>>>, <<<<>>, <<7, 1>>>>, <<<<5, 2>>, <<-1, 1>>>>}",
        "Periods": Z(3, "5/2", 4).replace("<<<<", "{<<").replace(">>>>", ">>}"), "Deltas": Z(0, "1/2", "-1/2", 1, "-3/4", 3),
        "Biases": "<<1, 2, 0, -1, 3>>", "Lmax": 5 if q else 12},
        invariants=["Nodes", "Shift", "SumOne", "Models", "UnitBias", "AlmLaw", "Emit"]))
    a2, a3, h2, h3, sl = [j.result() for j in jobs]
    ck.sample(h3[len(h3) // 2])
    ck.sample(sl[len(sl) // 2])
    axes(ck, a2 + a3)
    functions(ck, h2 + h3)
    slices(ck, sl)
    record(ck)
    bulk(ck)


main("C25", run)
