"""C07: windows and grids (Windows.tla, WindowsTrace.tla)."""
import warnings

from vf import *  # noqa: F403

FN = {"flat": "tophat_windows", "triangular": "linear_windows", "cubic": "cubic_windows"}
WEIGHTS = {-1: None, 1: lambda z: 1 + z, 2: lambda z: z * z}


def record(ck, kind, nodes, unit, dz, p, name, xp, ev):
    """nodes and dz in units of 1/unit."""
    g = np.asarray(nodes, float) / unit
    step = float(Fraction(dz[0], dz[1]) / unit)
    d = {"kind": kind, "grid": g, "dz": step, "weight": p, "backend": name}
    ck.traces += 1
    with ck.case(FN[kind], d):
        a = mk(xp, g)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            kw = {"weight": WEIGHTS[p]} if p > 0 or ck.rng.integers(2) else {}
            ws = getattr(glass, FN[kind])(a, step, **kw)
        ck.ok(any("does not start" in str(x.message) for x in w) == (nodes[0] != 0), "warning if the windows do not start at redshift zero", d)
        ck.ok(same(a, g), "nodes are not changed", d)
        wins = []
        for v in ws:
            ck.ok(nsname(v.za) == name and nsname(v.wa) == name and v.za.ndim == 1, "backend of windows", d)
            wins.append({"z": [snap(x * unit, 500) for x in npa(v.za)], "v": [snap(x, 200000, 1e-12, 10**7) if kind == "cubic" else snap(x, 20000, 1e-10) for x in npa(v.wa)],
                         "zeff": snap(float(npa(v.zeff)) * unit, 20000, 1e-10)})
        ev.append({"op": "windows", "kind": kind, "grid": [[n, 1] for n in nodes], "dz": dz, "p": -1 if p < 0 else p, "wins": wins})


def grids(ck, r, xp, name):
    lo, hi, st = (r["grid"][k] / 1000 for k in ("lo", "hi", "step"))
    n = r["n"]
    exp = np.array([(r["grid"]["lo"] + i * r["grid"]["step"]) / 1000 for i in range(n + 1)])
    d = {"limits": [lo, hi], "step": st, "backend": name}
    ck.traces += 1
    with ck.case("redshift_grid", d):
        g = glass.redshift_grid(lo, hi, dz=st, xp=xp)
        ck.ok(close(g, exp, rtol=1e-12, atol=1e-13) and nsname(g) == name, "redshift grid of given spacing", lambda: {**d, "got": g})
        if n:
            g = glass.redshift_grid(lo, hi, num=n, xp=xp)
            ck.ok(close(g, [lo + (hi - lo) * i / n for i in range(n + 1)], rtol=1e-12, atol=1e-13) and nsname(g) == name,
                  "redshift grid of given number", lambda: {**d, "got": g})
    with ck.case("fixed_zbins", d):
        for kw, e in (({"dz": st}, exp), ({"nbins": n}, np.array([lo + (hi - lo) * i / max(n, 1) for i in range(n + 1)]))):
            if not n:
                continue
            b = glass.fixed_zbins(lo, hi, xp=xp, **kw)
            ck.ok(len(b) == n and all(len(p) == 2 for p in b), "number of bins", lambda: {**d, "got": b})
            if len(b) == n:
                ck.ok(close([[float(npa(x)) for x in p] for p in b], np.stack([e[:-1], e[1:]], -1), rtol=1e-12, atol=1e-13),
                      "edges of fixed bins", lambda: {**d, "got": b})
                ck.ok(all(float(npa(b[i][1])) == float(npa(b[i + 1][0])) for i in range(n - 1)), "fixed bins are contiguous", d)
    with ck.case("distance_grid", d):
        class C:
            def comoving_distance(self, z):
                return mk(xp, 2500.0 * z)

            def inv_comoving_distance(self, x):
                return x / 2500.0
        g = glass.distance_grid(C(), lo, hi, dx=2500.0 * st)
        ck.ok(close(g, exp, rtol=1e-11, atol=1e-12) and nsname(g) == name, "distance grid of given spacing", lambda: {**d, "got": g})
        if n:
            g = glass.distance_grid(C(), lo, hi, num=n)
            ck.ok(close(g, [lo + (hi - lo) * i / n for i in range(n + 1)], rtol=1e-11, atol=1e-12), "distance grid of given number", lambda: {**d, "got": g})


def bulk(ck):
    """Grids with many nodes: the invariants of Windows.tla evaluated in numbers."""
    for t in range(9 if ck.quick else 36):
        name, xp = BACKENDS[t % 3]
        n = [40, 150, 17, 400][t // 3 % 4]
        g = np.cumsum(np.r_[0, ck.rng.uniform(0.003, 0.08, n)])
        p = ck.rng.uniform(g[1], g[-2], 3000)
        for kind, fn in FN.items():
            det = {"kind": kind, "nodes": n + 1, "backend": name}
            ck.traces += 1
            with ck.case(fn, det):
                ws = getattr(glass, fn)(mk(xp, g), 5e-6 if t == 7 else 1e-3)
                k = n if kind == "flat" else n - 1
                if not ck.ok(len(ws) == k, "number of windows", {**det, "got": len(ws)}):
                    continue
                for i, w in enumerate(ws):
                    z, v = npa(w.za), npa(w.wa)
                    hi = g[i + 1] if kind == "flat" else g[i + 2]
                    if kind == "flat":
                        e, mid = np.ones(len(z)), (g[i] + hi) / 2
                    else:
                        mid = g[i + 1]
                        u = np.where(z < mid, (z - g[i]) / (mid - g[i]), (hi - z) / (hi - mid))
                        e = u if kind == "triangular" else u * u * (3 - 2 * u)
                    good = abs(z[0] - g[i]) < 1e-12 and abs(z[-1] - hi) < 1e-12 and np.all(np.diff(z) > 0) and np.max(np.diff(z)) < 4e-3
                    ck.ok(bool(good) and close(v, e, atol=1e-9) and abs(float(npa(w.zeff)) - mid) < 1e-9, "windows of many nodes span their nodes and have their shape", {**det, "window": i})
                s = sum(np.interp(p, npa(w.za), npa(w.wa), 0, 0) for w in ws)
                on = np.isin(p, g)
                ck.ok(bool(np.all(np.abs(s - 1)[~on] < 1e-5)), "overlapping windows sum to one", det)
        with ck.case("a last step that is hardly needed", det):
            for k, over in ((1, 1e-6), (7, 3e-5), (30, 1e-3)):
                bins = glass.fixed_zbins(0.5, 0.5 + 0.1 * (k + over), dz=0.1, xp=xp)
                for b in (glass.redshift_grid(0.5, 0.5 + 0.1 * (k + over), dz=0.1, xp=xp), [float(npa(q[0])) for q in bins] + [float(npa(bins[-1][1]))]):
                    ck.ok(close(b, 0.5 + 0.1 * np.arange(k + 2), rtol=1e-12), "grids of given spacing cover the range", {**det, "steps": k + over, "got": [float(v) for v in npa(b)]})
        with ck.case("many bins", det):
            b = glass.redshift_grid(0.0, 3.0, num=1000 + n, xp=xp)
            ck.ok(close(b, np.linspace(0, 3, 1001 + n), atol=1e-12), "redshift grid of given number", det)
            b = glass.fixed_zbins(0.0, 3.0, nbins=500 + n, xp=xp)
            ck.ok(len(b) == 500 + n and close([[float(npa(x)) for x in q] for q in b], np.stack([np.linspace(0, 3, 501 + n)[:-1], np.linspace(0, 3, 501 + n)[1:]], -1)), "edges of fixed bins", det)


def run(ck):
    q = ck.quick
    lims = "{" + ", ".join(f"[lo |-> {a}, hi |-> {a + n * s + o}, step |-> {s}]" for a in (0, 50, 700, 1300) for s in (7, 50, 100, 333)
                           for n in ([0, 1, 2, 3, 6, 9, 14] if q else range(40)) for o in {0, 1, s // 2, s - 1} if n + o > 0) + "}"
    recs = ck.tlc("Windows", {
        "Grids": "{<<0,1>>, <<0,1,2>>, <<0,1,3>>, <<0,2,3,4>>, <<1,2,4,5>>, <<0,3,4,7,8>>, <<0,1,2,3,4,5>>, <<2,6,7>>, <<0,5>>, <<0,1,5,6>>}",
        "Unit": 4, "Steps": "{<<1,1>>, <<1,2>>, <<1,3>>, <<2,5>>, <<3,1>>, <<9,1>>}", "Limits": lims,
    }, invariants=["Spans", "Chain", "Edges", "Unity", "GridEnds", "Emit"])
    ck.sample(recs[0])
    ck.sample(recs[-1])
    ev = []
    for m, r in enumerate(recs):
        name, xp = BACKENDS[[0, 2][m % 2] if m % 14 else 1]
        if r["job"] == "grid":
            grids(ck, r, xp, name)
            continue
        for p in (-1, 1, 2):
            unit = 1 if p > 0 else [1, 4, 10, 7][m % 4]
            record(ck, r["job"], r["grid"], unit, r["dz"], p, name, xp, ev)
    for m in range(60 if q else 600):
        name, xp = BACKENDS[[0, 2][m % 2] if m % 14 else 1]
        k = int(ck.rng.integers(2, 7))
        z = np.cumsum(ck.rng.integers(1, 4, k))
        v = ck.rng.integers(0, 5, k)
        v[int(ck.rng.integers(k))] = 3
        with ck.case("RadialWindow", {"z": z, "v": v}):
            w = glass.RadialWindow(mk(xp, z), mk(xp, v))
            w2 = glass.RadialWindow(mk(xp, z), mk(xp, v), 0.75)
            ck.ok(w2.zeff == 0.75, "a given effective redshift is kept", z)
            ck.ok(same(w.za, z.astype(float)) and same(w.wa, v.astype(float)) and len(list(w)) == 3, "a window holds what it was given", z)
            ev.append({"op": "mean", "z": [[int(x), 1] for x in z], "v": [[int(x), 1] for x in v], "zeff": snap(float(npa(w.zeff)), 20000, 1e-10)})
    ck.validate("WindowsTrace", ev)
    bulk(ck)
    # fine sampling (default step) and weights by name
    for name, xp in BACKENDS:
        zs = mk(xp, [0.0, 0.3, 0.7, 1.0])
        with ck.case("default step", name):
            t = [npa(w.za) for w in glass.tophat_windows(zs)]
            ck.ok([len(x) for x in t] == [300, 400, 300], "default sampling step", [len(x) for x in t])
            for fn in (glass.linear_windows, glass.cubic_windows):
                ws = fn(zs)
                x = np.linspace(0.3, 0.7, 1237)
                s = sum(np.interp(x, npa(w.za), npa(w.wa), 0, 0) for w in ws)
                ck.ok(bool(np.all(np.abs(s - 1) < 1e-9)), "overlapping windows sum to one", name)

        class C:
            hubble_distance = 3.0
            critical_density0 = 7.0

            def H_over_H0(self, z):  # noqa: N802
                return 1 + z**2

            def transverse_comoving_distance(self, z):
                return 6 * z + z**3

            def Omega_m(self, z):  # noqa: N802
                return 0.25 + z
        z = np.linspace(0, 2, 9)
        with ck.case("weights by name", name):
            for cls, e in ((glass.DistanceWeight, 1 / (1 + z**2)), (glass.VolumeWeight, (2 * z + z**3 / 3) ** 2 / (1 + z**2)),
                           (glass.DensityWeight, 7 * (0.25 + z) * (2 * z + z**3 / 3) ** 2 / (1 + z**2))):
                ck.ok(close(cls(C())(mk(xp, z)), e, rtol=1e-12, atol=1e-12), "weight functions of a cosmology", [cls.__name__, name])
                ck.ok(close([npa(cls(C())(mk(xp, float(v)))) for v in z], e, rtol=1e-12, atol=1e-12), "weight functions of a cosmology", [cls.__name__, name, "one redshift at a time"])
        for fn in FN.values():
            f = getattr(glass, fn)
            few = [0.0] if fn == "tophat_windows" else [0.0, 1.0]
            ck.raises(ValueError, "too few nodes are refused", lambda: f(mk(xp, few)), [fn, name])
            ck.raises(ValueError, "nodes must be one-dimensional", lambda: f(mk(xp, [[0.0, 1.0, 2.0]])), [fn, name])
    for kw in ({}, {"dz": 0.1, "num": 3}):
        ck.raises(ValueError, "exactly one of step and number", lambda: glass.redshift_grid(0.0, 1.0, **kw), kw)
    for kw in ({}, {"dz": 0.1, "nbins": 3}):
        ck.raises(ValueError, "exactly one of step and number", lambda: glass.fixed_zbins(0.0, 1.0, **kw), kw)


main("C07", run)
