"""C08: restriction, partition and combination (Restrict.tla, Fit.tla)."""
import scipy.optimize
from vf import *  # noqa: F403

import glass.shells as gs


def windows(ws, xp, scale=1.0, height=1.0):
    return [glass.RadialWindow(mk(xp, np.array(w["z"]) * scale), mk(xp, np.array(w["v"]) * height), 0.5) for w in ws]


def lead(ck, n, m):
    return [(n,), (1, n), (n, 1)][m % 3] if n else (0,)


def replay_restrict(ck, r, name, xp, m):
    sc = [1.0, 0.125, 0.1][m % 3]
    z = np.array(r["zg"], float) * sc
    n = len(z)
    ws = windows(r["ws"], xp, sc)
    d = {"z": z, "windows": r["ws"], "backend": name}
    # every unit table at once, plus one dense one-dimensional function
    F = np.eye(n)
    dense = np.array([3 + (7 * i) % 5 - i / 2 for i in range(n)])
    ck.traces += 1
    for k, w in enumerate(ws):
        zr = np.array([e["x"] for e in r["rows"][k]], float) * sc
        C = np.array([qf(e["c"], 1) for e in r["rows"][k]])
        with ck.case("restrict", d):
            g, h = glass.restrict(mk(xp, z), mk(xp, F), w)
            ck.ok(close(g, zr, atol=1e-13) and close(h, C.T) and nsname(g) == name and nsname(h) == name,
                  "restrict is the product on the union of the grids", lambda: {**d, "window": k, "z": g, "f": h})
            g, h = glass.restrict(mk(xp, z), mk(xp, dense), w)
            ck.ok(close(g, zr, atol=1e-13) and close(h, C @ dense), "restrict is the product on the union of the grids",
                  lambda: {**d, "window": k, "z": g, "f": h})
    P = np.array([qf(p, 1) for p in r["parts"]]) * sc     # (shell, entry)
    with ck.case("partition by restriction", d):
        for shape in ((n, n), (n, 1, n), ()):
            f = dense if shape == () else np.eye(n).reshape(shape)
            exp = P @ dense if shape == () else P.reshape(len(ws), *shape[:-1])
            got = glass.partition(mk(xp, z), mk(xp, f), ws, method="restrict")
            ck.ok(close(got, exp) and nsname(got) == name, "restrict-partition integrates the restriction",
                  lambda: {**d, "shape": shape, "got": got, "expected": exp})
            if r["unity"] and shape == ():
                lo, hi = r["ws"][0]["z"][0] * sc, r["ws"][-1]["z"][-1] * sc
                # whole integral over the covered range, where the windows sum to one
                core = [x for x in sorted({*r["zg"], *(v for w in r["ws"] for v in w["z"])}) if lo <= x * sc <= hi]
                ck.ok(abs(float(npa(got).sum()) - float((P @ dense).sum())) < 1e-9, "parts add up to the whole", {**d, "core": core})


def replay_fit(ck, batch, method, sumtol, name, xp, m):
    """A batch of optima of the same case: one call with leading axes, one by one for some."""
    c = batch[0]["c"]
    z = np.array(c["z"], float)
    h = [1.0, 3.0][m % 2]   # windows need not be normalised
    ws = windows(c["ws"], xp, 1.0, h)
    f = np.array([b["f"] for b in batch], float)
    X = np.array([b["x"] for b in batch], float) / 2
    d = {"method": method, "z": z, "windows": c["ws"], "sumtol": sumtol, "backend": name}
    fn = {"nnls": gs.partition_nnls, "lstsq": gs.partition_lstsq}[method]

    def call(fz):
        if sumtol == 0.01 and m % 2:
            return glass.partition(mk(xp, z), mk(xp, fz), ws, **({} if method == "nnls" and m % 4 == 1 else {"method": method}))
        return fn(mk(xp, z), mk(xp, fz), ws, sumtol=sumtol) if sumtol != 0.01 or m % 3 else fn(mk(xp, z), mk(xp, fz), ws)
    ck.traces += len(batch)

    def judge(got, exp, shape):
        g = npa(got)
        if not ck.ok(g.shape == (len(ws), *shape) and nsname(got) == name, "shape of the partition", lambda: {**d, "shape": shape, "got": g.shape}):
            return
        err = np.abs(g - exp)
        ck.ok(bool(np.all(err < 2e-7)), f"{method} partition is the optimum", lambda: {
            **d, "shape": shape, "worst": float(err.max()), "at": (i := np.unravel_index(int(err.argmax()), err.shape)),
            "got": g[(slice(None), *i[1:])], "expected": exp[(slice(None), *i[1:])]})
        if method == "nnls":
            ck.ok(bool(np.all(g >= 0)), "nnls partition is non-negative", d)
    with ck.case(f"{method} partition", d, timeout=120):
        n = len(batch)
        judge(call(f), X.T, (n,))
        k = n // 2
        if k:
            judge(call(f[: 2 * k].reshape(2, k, -1)), np.moveaxis(X[: 2 * k].reshape(2, k, -1), -1, 0), (2, k))
            judge(call(f[: 2 * k].reshape(k, 1, 2, -1)), np.moveaxis(X[: 2 * k].reshape(k, 1, 2, -1), -1, 0), (k, 1, 2))
        for i in range(0, n, max(1, n // 3)):
            judge(call(f[i]), X[i], ())
    # combining the coefficients: the sum of normalised windows
    with ck.case("combine", d):
        probe = np.array(sorted({*c["z"], *(v for w in c["ws"] for v in w["z"])} | {x + 0.5 for x in c["z"]}))
        N = [np.interp(probe, w["z"], np.array(w["v"], float), 0, 0) / np.trapezoid(w["v"], w["z"]) for w in c["ws"]]
        N = np.array(N)
        ck.ok(close(glass.combine(mk(xp, probe), mk(xp, X.T), ws), X @ N), "combine is the sum of normalised windows", d)
        ck.ok(close(glass.combine(mk(xp, probe), mk(xp, X[0]), ws), X[0] @ N), "combine is the sum of normalised windows", d)
        if len(batch) > 3:
            W = X[:4].T.reshape(len(ws), 2, 2)
            ck.ok(close(glass.combine(mk(xp, probe), mk(xp, W), ws), np.einsum("sab,sp->abp", W, N)), "combine is the sum of normalised windows", d)


def recover(ck, name, xp, m):
    """Distributions that are combinations of the windows give their coefficients back."""
    kind = [glass.linear_windows, glass.cubic_windows][m % 2]
    nodes = np.cumsum([0, *ck.rng.integers(1, 4, int(ck.rng.integers(3, 6)))]) * 0.25
    ws = kind(mk(xp, nodes), 0.1)
    k = len(ws)
    zs = np.unique(np.concatenate([npa(w.za) for w in ws]))
    shape = [(), (3,), (2, 2)][m % 3]
    x = ck.rng.integers(0, 5, (k, *shape)).astype(float)
    x[int(ck.rng.integers(k))] += 1
    d = {"windows": kind.__name__, "nodes": nodes, "x": x, "backend": name}
    with ck.case("recover coefficients", d):
        f = npa(glass.combine(mk(xp, zs), mk(xp, x), ws))
        tol = 1e-7
        for method, y in (("nnls", x), ("lstsq", x), ("lstsq", x - 1)):
            g = f if y is x else npa(glass.combine(mk(xp, zs), mk(xp, y), ws))
            got = glass.partition(mk(xp, zs), mk(xp, g), ws, method=method)
            ck.ok(close(got, y, rtol=tol, atol=tol), "combinations of windows give their coefficients back", lambda: {**d, "method": method, "got": got})
            if method == "nnls" or (method == "lstsq" and y is x):
                ck.ok(close(npa(got).sum(0), np.trapezoid(g, zs), rtol=1e-6), "the total integral is preserved", d)


def optimum(z, F, ws, method):
    """The problem of Fit.tla in numbers, for distributions F of shape (n, len(z))."""
    u = np.unique(np.concatenate([z, *(npa(w.za) for w in ws)]))
    a = np.array([np.interp(u, npa(w.za), npa(w.wa), 0, 0) for w in ws])
    a /= np.trapezoid(a, u)[:, None]
    d = np.gradient(u)
    d[1:-1] = (u[2:] - u[:-2]) / 2
    A = np.concatenate([a * d, 100 * np.ones((len(ws), 1))], axis=1).T
    B = [np.r_[np.interp(u, z, f, 0, 0) * d, 100 * np.trapezoid(f, z)] for f in F]
    if method == "lstsq":
        return np.array([np.linalg.lstsq(A, b, rcond=None)[0] for b in B]).T
    return np.array([scipy.optimize.nnls(A, b, maxiter=10000)[0] for b in B]).T


def bulk(ck):
    """Many shells, fine grids, many distributions at once."""
    for t in range(6 if ck.quick else 18):
        name, xp = BACKENDS[t % 3]
        k, kind = [(30, glass.linear_windows), (12, glass.cubic_windows), (45, glass.linear_windows)][t // 3 % 3]
        g = np.linspace(0, 2, k + 2)
        ws = kind(mk(xp, g), 0.01)
        z = np.unique(np.concatenate([npa(w.za) for w in ws]))
        z = z[np.r_[True, np.diff(z) > 1e-9]]
        shape = [(7,), (3, 2), (25,)][t % 3]
        F = ck.rng.uniform(0, 1, (*shape, len(z)))
        det = {"shells": k, "grid": len(z), "distributions": shape, "backend": name}
        ck.traces += 1
        with ck.case("many shells", det, timeout=300):
            N = np.array([np.interp(z, npa(w.za), npa(w.wa), 0, 0) for w in ws])
            area = np.array([np.trapezoid(npa(w.wa), npa(w.za)) for w in ws])
            got = npa(glass.partition(mk(xp, z), mk(xp, F), ws, method="restrict"))
            parts = []
            for w in ws:
                zz = npa(w.za)
                u = np.unique(np.r_[zz, z[(z > zz[0]) & (z < zz[-1])]])
                u = u[np.r_[True, np.diff(u) > 1e-9]]
                ww = np.interp(u, zz, npa(w.wa))
                parts.append(np.trapezoid(np.stack([np.interp(u, z, v) for v in F.reshape(-1, len(z))]) * ww, u, axis=-1).reshape(shape))
            ck.ok(close(got, parts, rtol=1e-7, atol=1e-8), "restrict-partition integrates the restriction", det)
            X = ck.rng.uniform(0, 2, (k, *shape)) * (ck.rng.uniform(size=(k, *shape)) < 0.8)
            f = npa(glass.combine(mk(xp, z), mk(xp, X), ws))
            ck.ok(close(f, np.moveaxis(np.tensordot(N / area[:, None], X, axes=(0, 0)), 0, -1), rtol=1e-9, atol=1e-9), "combine is the sum of normalised windows", det)
            for method in ("nnls", "lstsq"):
                got = npa(glass.partition(mk(xp, z), mk(xp, f), ws, method=method))
                ck.ok(close(got, X, rtol=1e-5, atol=1e-5), "combinations of windows give their coefficients back", {**det, "method": method})
                got = npa(glass.partition(mk(xp, z), mk(xp, F), ws, method=method))
                ck.ok(got.shape == (k, *shape) and close(got.sum(0), np.trapezoid(F, z), rtol=2e-2), "the total integral is preserved", {**det, "method": method})
                # tabulated on part of the range of the shells only
                j = len(z) // [3, 5, 7][t % 3]
                zt, Ft = z[j : -j // 2], F[..., j : -j // 2][(0,) * (len(shape) - 1)]
                got = npa(glass.partition(mk(xp, zt), mk(xp, Ft), ws, method=method))
                exp = optimum(zt, Ft, ws, method)
                ck.ok(close(got, exp, rtol=1e-6, atol=1e-7), f"{method} partition is the optimum",
                      lambda: {**det, "worst": float(np.abs(got - exp).max())})


def run(ck):
    q = ck.quick
    W = lambda z, v: f"[z |-> <<{','.join(map(str, z))}>>, v |-> <<{','.join(map(str, v))}>>]"  # noqa: E731
    S = lambda *w: "<<" + ", ".join(W(*x) for x in w) + ">>"  # noqa: E731
    wins = [
        S(([0, 2, 4], [0, 1, 0]), ([2, 4, 5], [0, 1, 0]), ([4, 5, 8], [0, 1, 0])),
        S(([0, 2], [1, 1]), ([2, 3], [1, 1]), ([3, 6], [1, 1])),
        S(([0, 1, 2, 3], [1, 1, 1, 0]), ([2, 3, 5, 6], [0, 1, 1, 1])),
        S(([1, 4], [2, 0]),), S(([0, 3, 4, 8], [0, 2, 1, 3]), ([5, 6], [1, 2])),
    ]
    grids = "{<<0,8>>, <<0,1,3,5,8>>, <<2,3,4>>, <<1,2,6,7>>, <<0,2,4,6,8>>, <<3,5>>, <<0,1,2,3,4,5,6,7,8>>" + (
        "}" if q else ", <<4,9>>, <<0,4,5,6>>, <<1,7>>, <<5,6,7,8,10>>, <<0,3>>}")
    fr = ck.tlc_bg("Restrict", {"ZGrids": grids, "WinSets": "{" + ", ".join(wins) + "}"},
                   invariants=["Ordered", "SumsUp", "Emit"])
    C = lambda z, s: f"[z |-> <<{','.join(map(str, z))}>>, ws |-> {s}]"  # noqa: E731
    tri4 = S(([0, 1, 2], [0, 1, 0]), ([1, 2, 3], [0, 1, 0]), ([2, 3, 4], [0, 1, 0]))
    one = S(([0, 2, 4], [0, 1, 0]),)
    uneven = S(([0, 1, 4], [0, 1, 0]), ([1, 2, 5], [0, 2, 0]))
    over = S(([0, 1, 4], [0, 1, 0]), ([1, 2, 3], [0, 1, 0]))
    flat = S(([0, 2], [1, 1]), ([0, 1, 2], [0, 1, 0]))
    cases = "{" + ", ".join([C(range(5), tri4), C([0, 1, 2, 3], one), C([0, 1, 3, 5], uneven), C([0, 2, 4], over), C([1, 2, 5], over),
                             C([0, 1, 2], flat), C([1, 3], one)]) + "}"
    xs, xs2 = ("{0, 1, 2, 4}", "{-2, -1, 0, 1, 2}") if q else ("{0, 1, 2, 3, 6}", "{-4, -2, -1, 0, 1, 2, 3}")
    fv = "-1..2" if q else "-2..3"
    jobs = [(meth, tol, ck.tlc_bg("Fit", {"Cases": cases, "FVals": fv, "XVals": x, "Lam2": lam, "NonNeg": meth == "nnls"},
                                  invariants=["Best", "Emit"], name=f"Fit-{meth}-{lam}"))
            for meth, x in (("nnls", xs), ("lstsq", xs2)) for lam, tol in ((10000, 0.01), (1, 1.0))]
    for m, r in enumerate(fr.result()):
        for name, xp in BACKENDS:
            if xp is JX and m % 9:
                continue
            replay_restrict(ck, r, name, xp, m)
        if m < 2:
            ck.sample({k: r[k] for k in ("zg", "ws", "parts")})
    for method, tol, fu in jobs:
        by = {}
        for r in fu.result():
            by.setdefault(json.dumps(r["c"]), []).append(r)
        ck.clauses[f"optima of {method} (sumtol {tol})"] = sum(map(len, by.values()))
        for m, k in enumerate(sorted(by)):
            v = by[k]
            ck.rng.shuffle(v)
            ck.sample({"method": method, "optimum": v[0]}, cap=10)
            for bi, (name, xp) in enumerate(BACKENDS):
                step = 24 if xp is not JX else 6
                for s in range(0, min(len(v), (72 if xp is not JX else 6) if q else (480 if xp is not JX else 24)), step):
                    replay_fit(ck, v[s : s + step], method, tol, name, xp, m + s // step + bi)
    bulk(ck)
    for m in range(60 if q else 400):
        recover(ck, *BACKENDS[[0, 2][m % 2] if m % 20 else 1], m)
    for name, xp in BACKENDS:
        w = windows([{"z": [0, 1], "v": [1, 1]}], xp)
        ck.raises(ValueError, "unknown methods are refused", lambda: glass.partition(mk(xp, [0., 1.]), mk(xp, [0., 1.]), w, method="magic"), name)
        ck.raises(ValueError, "restrict needs a one-dimensional grid", lambda: glass.restrict(mk(xp, [[0., 1.]]), mk(xp, [[0., 1.]]), w[0]), name)


main("C08", run)
