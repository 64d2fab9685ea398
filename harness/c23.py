"""C23: survey models (Nz.tla, EqualDens.tla, Tomo.tla, Frames.tla, SurveyTrace.tla)."""
import healpy

from vf import *  # noqa: F403

LN2 = math.log(2)


def distributions(ck, recs):
    lines = []
    for m, r in enumerate(recs):
        kind = r["rows"][0]["k"]
        t = np.array(r["t"], float)
        u = float(ck.rng.choice([1.0, 0.1, 0.25]))
        z0 = float(ck.rng.choice([0.0, 0.5])) if kind == "gauss" else 0.0
        z = z0 + u * t
        # parameters of every row
        if kind == "gauss":
            p = [[z0 + u * row["a"] for row in r["rows"]], [u / math.sqrt(2 * LN2 * row["q"]) for row in r["rows"]]]
        else:
            p = [[row["a"] * u / (row["q"] * LN2) if row["b"] == 1 else u * math.sqrt(row["a"] / (2 * row["q"] * LN2)) for row in r["rows"]],
                 [row["a"] for row in r["rows"]], [row["b"] for row in r["rows"]]]
        n = len(r["rows"])
        shapes = [(n,)] + ([()] if n == 1 else []) + ([(2, n // 2)] if n % 2 == 0 else []) + [(1, n)]
        shape = shapes[m % len(shapes)]
        exp = np.array([[v[0] / v[1] for v in row] for row in r["out"]]).reshape(*shape, len(t)) / u
        norm = r["norm"]
        name, xp = BACKENDS[m % 3]
        form = m % 4
        det = {"model": kind, "z": z, "parameters": p, "shape": shape, "norm": norm, "backend": name}
        with ck.case("redshift distribution", det):
            ps = []
            for q in p:
                a = np.array(q, float).reshape(shape)
                # a parameter common to all rows may be a number or an axis of length one
                if len(set(q)) == 1 and form == 1:
                    ps.append(float(q[0]))
                elif len(set(q)) == 1 and form == 2 and a.ndim:
                    ps.append(mk(xp, a[..., :1]))
                else:
                    ps.append(mk(xp, a) if a.ndim or form == 3 else float(a))
            if all(isinstance(v, float) for v in ps) and shape != ():
                ps[0] = mk(xp, np.array(p[0]).reshape(shape))
            if shape != () and np.broadcast_shapes(*[np.shape(npa(v)) for v in ps]) != shape:
                ps[0] = mk(xp, np.array(p[0]).reshape(shape))
            kw = {}
            if len(norm) == 1:
                kw["norm"] = norm[0][0] / norm[0][1]
            elif norm:
                kw["norm"] = mk(xp, np.array([a / b for a, b in norm]).reshape(*shape, 1))
            zz = mk(xp, z)
            f = glass.gaussian_nz if kind == "gauss" else glass.smail_nz
            res = f(zz, *ps, **kw)
            ck.traces += 1
            ck.ok(nsname(res) == name, "results are arrays of the backend", det)
            ck.ok(same(zz, z), "the grid is not changed", det)
            ck.ok(close(res, exp, rtol=1e-9, atol=1e-12 * np.abs(exp).max()), "every row has the shape of its parameters and the normalisation", lambda: {**det, "got": res, "expected": exp})
            g = npa(res)
            if g.shape != exp.shape:
                continue
            g2 = g.reshape(n, len(t))
            for i, row in enumerate(r["rows"]):
                no = norm[0] if len(norm) == 1 else norm[i] if norm else [1, 1]
                if no[0] == 0:
                    continue
                ref = int(np.argmax(np.abs(g2[i])))
                area = float(((g2[i][1:] + g2[i][:-1]) / 2 * np.diff(z)).sum())
                if np.all(np.isfinite(g2[i])) and g2[i][ref] != 0:
                    rel = [snap(v / g2[i][ref], 2**22, 1e-10, 2**22) for v in g2[i]]
                    # numbers too small to be recovered are not recorded
                    if all(abs(v / g2[i][ref]) > 1e-5 or v == 0 for v in g2[i]):
                        lines.append({"op": "row", "t": r["t"], "row": row, "ref": ref + 1, "rel": rel, "area": snap(area), "norm": no})
                else:
                    ck.ok(False, "entries are numbers", det)
    # parameters off the lattice, grids of several axes
    for m in range(40 if ck.quick else 400):
        name, xp = BACKENDS[m % 3]
        z = np.cumsum(ck.rng.uniform(0.01, 0.2, 30))
        sh = ((), (3,), (2, 3), (1,), (2, 1))[m % 5]
        sh2 = (sh, (), sh[-1:])[m % 3]
        mean, sig = ck.rng.uniform(0.3, 2, sh), ck.rng.uniform(0.2, 1, sh2)
        if m % 4 == 1:   # narrow, centred on grid points
            mean, sig = ck.rng.choice(z, sh), 10.0 ** ck.rng.uniform(-6, -1, sh2)
        zm, al, be = ck.rng.uniform(0.3, 1.5, sh), ck.rng.uniform(0.5, 3, sh2), ck.rng.uniform(0.5, 2.5, sh)
        norm = (None, 2.5, -1.0)[m % 3]
        trap = lambda f, x: ((f[..., 1:] + f[..., :-1]) / 2 * np.diff(x)).sum(-1)  # noqa: E731
        wrap = lambda a: mk(xp, a) if np.ndim(a) else float(a)  # noqa: E731
        det = {"shape": sh, "second": sh2, "norm": norm, "backend": name}
        if len(sh) == len(sh2) or sh2 == ():
            with ck.case("redshift distribution", det):
                e = np.exp(-0.5 * ((z - mean[..., None]) / sig[..., None]) ** 2)
                e = e / trap(e, z)[..., None] * (1 if norm is None else norm)
                ck.ok(close(glass.gaussian_nz(mk(xp, z), wrap(mean), wrap(sig), norm=norm), e, rtol=1e-9), "Gaussian distribution", det)
        with ck.case("redshift distribution", det):
            e = (z / zm[..., None]) ** al[..., None] * np.exp(-al[..., None] / be[..., None] * (z / zm[..., None]) ** be[..., None])
            e = e / trap(e, z)[..., None] * (1 if norm is None else norm)
            got = glass.smail_nz(mk(xp, z), wrap(zm), wrap(al), wrap(be), norm=norm)
            ck.ok(close(got, e, rtol=1e-9), "Smail distribution", lambda: {**det, "got": got, "expected": e})
            # the mode is the mode
            x = np.linspace(0.001, 5, 2001)
            y = npa(glass.smail_nz(mk(xp, x), float(zm.ravel()[0]), float(al.ravel()[0]), float(be.ravel()[0])))
            ck.ok(abs(x[np.argmax(y)] - zm.ravel()[0]) <= 0.0026, "the mode of the distribution", det)
        if m % 4 == 0 and sh == sh2:
            with ck.case("redshift distribution", det):
                z2 = np.stack([z, 2 * z + 0.1])
                g = npa(glass.gaussian_nz(mk(xp, z2), wrap(mean), wrap(sig)))
                e = np.stack([npa(glass.gaussian_nz(mk(xp, v), wrap(mean), wrap(sig))) for v in z2], axis=-2)
                ck.ok(close(g, e, rtol=1e-9), "rows of a grid of several axes are treated alike", det)
    return lines


def equal(ck, recs):
    lines = []
    for m, r in enumerate(recs):
        name, xp = BACKENDS[m % 3]
        u, s = float(ck.rng.choice([1.0, 0.125])), float(ck.rng.choice([1.0, 0.5, 8.0]))
        z, v = np.array(r["z"], float), np.array(r["v"], float)
        det = {"z": r["z"], "nz": r["v"], "nbins": r["nb"], "backend": name}
        with ck.case("bins of equal density", det):
            a, b = mk(xp, u * z), mk(xp, s * v)
            bins = glass.equal_dens_zbins(a, b, r["nb"])
            ck.traces += 1
            ck.ok(same(a, u * z) and same(b, s * v), "arguments are not changed", det)
            ck.ok(len(bins) == r["nb"] and all(len(x) == 2 for x in bins), "number of bins", det)
            e = np.array([float(x) for p in bins for x in p]) / u
            ck.ok(all(float(bins[i][1]) == float(bins[i + 1][0]) for i in range(len(bins) - 1)), "bins are contiguous", det)
            edges = [e[0]] + list(e[1::2]) if len(e) else []
            ex = [(qf(x["lo"]), qf(x["hi"])) for x in r["edges"]]
            ck.ok(len(edges) == len(ex) and all(lo - 1e-9 <= x <= hi + 1e-9 for x, (lo, hi) in zip(edges, ex)), "edges enclose equal shares", lambda: {**det, "got": edges, "expected": ex})
            if name != "jax.numpy":
                lines.append({"op": "edges", "z": r["z"], "v": r["v"], "nb": r["nb"], "bins": [[snap(p[0] / u), snap(p[1] / u)] for p in [[float(y) for y in x] for x in bins]]})
    return lines


def tomo(ck, recs):
    erf = np.vectorize(math.erf)
    for m, r in enumerate(recs):
        name, xp = BACKENDS[m % 3]
        z = np.array(qf(r["z"], 1))
        nz = ck.rng.uniform(0, 3, len(z))
        bins = [tuple(qf(e) if e[0] >= 0 else (math.inf, 1e9)[m % 2] for e in b) for b in r["bins"]]
        for sigma in (0.05, 0.4):
            arg = lambda c: qf(c) / (math.sqrt(2) * sigma)  # noqa: B023, E731
            e = np.array([[(sum(x["s"] * (erf(arg(x["c"])) if not x["inf"] else -1.0) for x in p["num"])) / (1 + erf(arg(p["den"]))) for p in row] for row in r["out"]]) * nz
            det = {"z": z, "nz": nz, "bins": bins, "sigma_0": sigma, "backend": name}
            with ck.case("tomographic bins", det):
                a, b = mk(xp, z), mk(xp, nz)
                arg_bins = list(bins)
                res = glass.tomo_nz_gausserr(a, b, sigma, arg_bins)
                ck.traces += 1
                ck.ok(nsname(res) == name and same(a, z) and same(b, nz) and arg_bins == bins, "results are arrays of the backend, arguments stay", det)
                ck.ok(close(res, e, rtol=1e-9, atol=1e-12), "the distribution of every bin", lambda: {**det, "got": res, "expected": e})
                if r["covering"]:
                    ck.ok(close(npa(res).sum(0), nz, rtol=1e-9, atol=1e-12), "covering bins add up to the input", lambda: {**det, "got": res})
                ck.ok(bool(np.all(npa(res) >= -1e-15)), "no negative distributions", det)
    # bins from the other functions
    for name, xp in BACKENDS:
        with ck.case("tomographic bins", name):
            z = np.linspace(0, 3, 61)
            nz = npa(glass.smail_nz(z, 0.9, 2.0, 1.5))
            for bins in (glass.equal_dens_zbins(mk(xp, z), mk(xp, nz), 4), glass.fixed_zbins(0.0, 3.0, nbins=4, xp=xp), glass.fixed_zbins(0.0, 3.0, dz=0.75, xp=xp)):
                res = npa(glass.tomo_nz_gausserr(mk(xp, z), mk(xp, nz), 0.05, bins))
                s = 0.05 * math.sqrt(2) * (1 + z)
                ed = [float(b[0]) for b in bins] + [float(bins[-1][1])]
                e = np.array([(erf((z - lo) / s) - erf((z - hi) / s)) / (1 + erf(z / s)) * nz for lo, hi in zip(ed, ed[1:])])
                ck.ok(close(res, e, rtol=1e-8, atol=1e-12), "the distribution of every bin", {"backend": name, "bins": ed})


def stripe(nside, lims):
    m = np.ones(12 * nside * nside)
    m[healpy.query_strip(nside, *lims)] = 0
    return m


def turn(m, c):
    return healpy.Rotator(coord=c).rotate_map_pixel(m)


def visibility(ck, coded):
    g0, e0 = (30, 90), (20, 80)
    lims = [(g0, e0), ((1.0, 2.0), (1.3, 1.9)), ((1.4, 1.7), (2.0, 2.6)), ((0.2, 0.7), (1.2, 1.3)), ((0, 0), (0, 0)), ((2.0, 1.0), (1.2, 1.9)), ((1.5, 1.5001), (1.3, 1.9)), ((1.2, 1.9), (1.5, 1.5001)),
            ((1.04, 1.96), (1.34, 1.86)), ((1.0, 2.0), (1.3, 1.9))]
    nsides = (4, 16) if ck.quick else (1, 2, 4, 8, 16, 32, 64)
    for m, ((ga, ec), nside) in enumerate([(a, b) for a in lims for b in nsides]):
        name, xp = BACKENDS[m % 3]
        det = {"nside": nside, "galactic": ga, "ecliptic": ec, "backend": name}
        with ck.case("visibility map", det):
            kw = {} if (ga, ec) == (g0, e0) and m % 2 else {"galactic": ga, "ecliptic": ec}
            res = glass.vmap_galactic_ecliptic(nside, **kw, xp=xp) if m % 2 else glass.vmap_galactic_ecliptic(nside, ga, ec, xp=xp)
            ck.traces += 1
            ck.ok(nsname(res) == name and npa(res).shape == (12 * nside * nside,), "a map in the backend", det)
            v = npa(res)
            ck.ok(bool(np.all((v >= -1e-12) & (v <= 1 + 1e-12))), "visibility is between zero and one", det)
            asis = turn(turn(stripe(nside, ga), "GC") * stripe(nside, ec), "CE")
            right = [turn(stripe(nside, ga), "GE") * stripe(nside, ec), turn(turn(stripe(nside, ga), "GE") * stripe(nside, ec), "EC")]
            ck.ok(any(close(v, e, rtol=0, atol=1e-9) for e in [asis, *right]), "both stripes are blocked", lambda: {**det, "got": v, "expected": asis})
            # stripes in the frame of the result, away from the borders
            pix = healpy.nside2resol(nside) * 3
            th, ph = healpy.pix2ang(nside, np.arange(12 * nside * nside))
            for f in "EC":
                tg = healpy.Rotator(coord=[f, "G"])(th, ph)[0] if f != "G" else th
                te = th if f == "E" else healpy.Rotator(coord=[f, "E"])(th, ph)[0]
                inside = lambda t, s: (t > s[0] + pix) & (t < s[1] - pix) if s[0] < s[1] < 4 else np.zeros(len(t), bool)  # noqa: B023, E731
                if f == "E":
                    okg, oke = bool(np.all(v[inside(tg, ga)] <= 1e-12)), bool(np.all(v[inside(te, ec)] <= 1e-12))
                elif np.all(v[inside(tg, ga)] <= 1e-12) and np.all(v[inside(te, ec)] <= 1e-12):
                    okg = oke = True
            ck.ok(okg, "the galactic stripe is blocked along galactic latitude", det)
            ck.ok(oke, "the ecliptic stripe is blocked along ecliptic latitude", det, key="vmap-ecliptic-frame")
    for bad in ((1,), (1, 2, 3), ()):
        ck.raises(TypeError, "stripes are pairs", lambda bad=bad: glass.vmap_galactic_ecliptic(2, bad), bad)
        ck.raises(TypeError, "stripes are pairs", lambda bad=bad: glass.vmap_galactic_ecliptic(2, (1, 2), bad), bad)


def bulk(ck):
    """Distributions of real surveys on fine grids."""
    erf = np.vectorize(math.erf)
    trap = lambda f, x: ((f[..., 1:] + f[..., :-1]) / 2 * np.diff(x)).sum(-1)  # noqa: E731
    for m in range(6 if ck.quick else 60):
        name, xp = BACKENDS[m % 3]
        n = int(ck.rng.choice([500, 2000]))
        z = np.linspace(0.0, 4.0, n) if m % 2 else np.concatenate([[0.0], np.cumsum(ck.rng.uniform(0.2, 1.8, n - 1)) * 4 / n])
        mean, sig = np.sort(ck.rng.uniform(0.2, 2.5, 60)), ck.rng.uniform(0.05, 0.5, 60)
        norm = (None, 3.5)[m % 2]
        det = {"points": n, "rows": 60, "norm": norm, "backend": name}
        with ck.case("redshift distribution", det):
            e = np.exp(-0.5 * ((z - mean[:, None]) / sig[:, None]) ** 2)
            e = e / trap(e, z)[:, None] * (norm or 1)
            ck.ok(close(glass.gaussian_nz(mk(xp, z), mk(xp, mean), mk(xp, sig), norm=norm), e, rtol=1e-9, atol=1e-13), "Gaussian distribution", det)
            al, be = ck.rng.uniform(0.8, 3, 60), ck.rng.uniform(0.8, 2.5, 60)
            e = (z / mean[:, None]) ** al[:, None] * np.exp(-(al / be)[:, None] * (z / mean[:, None]) ** be[:, None])
            e = e / trap(e, z)[:, None] * (norm or 1)
            ck.ok(close(glass.smail_nz(mk(xp, z), mk(xp, mean), mk(xp, al), mk(xp, be), norm=norm), e, rtol=1e-9, atol=1e-13), "Smail distribution", det)
            ck.traces += 2
        nz, nb = e[m], int(ck.rng.choice([5, 10, 30]))
        with ck.case("bins of equal density", det):
            bins = glass.equal_dens_zbins(mk(xp, z), mk(xp, nz), nb)
            ed = np.array([float(bins[0][0]), *[float(b[1]) for b in bins]])
            cum = np.concatenate([[0.0], np.cumsum((nz[1:] + nz[:-1]) / 2 * np.diff(z))])
            got = np.interp(ed, z, cum) / cum[-1]
            ck.ok(len(bins) == nb and all(float(b[1]) == float(c[0]) for b, c in zip(bins, bins[1:])), "bins are contiguous", det)
            ck.ok(close(got, np.linspace(0, 1, nb + 1), rtol=0, atol=1e-9) and ed[0] == z[0], "edges enclose equal shares", lambda: {**det, "edges": ed, "shares": got})
            s0 = float(ck.rng.choice([0.03, 0.1]))
            res = npa(glass.tomo_nz_gausserr(mk(xp, z), mk(xp, nz), s0, bins))
            s = s0 * math.sqrt(2) * (1 + z)
            e = np.array([(erf((z - lo) / s) - erf((z - hi) / s)) / (1 + erf(z / s)) * nz for lo, hi in zip(ed, ed[1:])])
            ck.ok(close(res, e, rtol=1e-8, atol=1e-12), "the distribution of every bin", det)


def run(ck):
    q = ck.quick
    row = lambda k, a, qq, b=1: f'[k |-> "{k}", a |-> {a}, q |-> {qq}, b |-> {b}]'  # noqa: E731
    G = [row("gauss", a, qq) for a in (0, 2, 3) for qq in (1, 2)]
    S = [row("smail", a, qq, b) for a in (1, 2, 3) for qq in (1, 2) for b in (1, 2)]
    tabs = [[g] for g in G + S] + [[G[0], G[3]], [G[2], G[4], G[1]], [G[1], G[3], G[5], G[0]], [G[2], G[3]], [S[0], S[5]], [S[1], S[6], S[10]], [S[4], S[8], S[2], S[9]], [S[0], S[4]]]
    tabs = "{" + ", ".join("<<" + ", ".join(t) + ">>" for t in tabs) + "}"
    norms = "{<<>>, <<<<3, 1>>>>, <<<<1, 2>>>>, <<<<2, 1>>, <<5, 1>>>>, <<<<1, 1>>, <<7, 1>>, <<-3, 2>>>>, <<<<1, 1>>, <<2, 1>>, <<3, 1>>, <<0, 1>>>>}"
    fn = ck.tlc_bg("Nz", {"Grids": "{<<0, 1, 2, 3>>, <<1, 2, 4>>, <<0, 1, 3, 4>>, <<1, 2>>}" if q else "{<<0, 1, 2, 3>>, <<1, 2, 4>>, <<0, 1, 3, 4>>, <<1, 2>>, <<0, 2, 3>>, <<2, 3, 4>>, <<0, 1, 2, 3, 4>>, <<0, 4>>}",
                          "Tables": tabs, "Norms": norms}, invariants=["Normalised", "Mode", "Emit"])
    fe = ck.tlc_bg("EqualDens", {"Grids": "{<<0, 1, 2>>, <<0, 2, 3, 6>>}" if q else "{<<0, 1>>, <<0, 1, 2>>, <<0, 2, 3, 6>>, <<1, 2, 5, 6, 7>>}", "Values": {0, 1, 3} if q else {0, 1, 2, 5}, "NBins": {1, 2, 3, 5}},
                   invariants=["EqualShares", "Increasing", "Emit"], properties=["Finishes"])
    ft = ck.tlc_bg("Tomo", {"Grids": "{<<<<0, 1>>, <<1, 2>>, <<1, 1>>>>, <<<<1, 4>>, <<2, 1>>>>}",
                            "BinSets": "{<<<<Q0, <<-1, 1>>>>>>, <<<<Q0, Q1>>, <<Q1, <<-1, 1>>>>>>, <<<<Q0, <<1, 2>>>>, <<<<1, 2>>, Q1>>, <<Q1, <<-1, 1>>>>>>, <<<<<<1, 4>>, <<1, 2>>>>, <<<<1, 2>>, <<3, 2>>>>>>, "
                                       "<<<<Q1, <<2, 1>>>>, <<Q0, <<1, 2>>>>>>, <<<<Q0, Q1>>, <<<<1, 2>>, <<3, 1>>>>>>}"}, invariants=["Telescopes", "SumsToOne", "Emit"], properties=["Finishes"])
    op = lambda o, a: f'[op |-> "{o}", arg |-> "{a}"]'  # noqa: E731
    coded = ck.tlc("Frames", {"Program": "<<" + ", ".join([op("block", "galactic"), op("rotate", "C"), op("block", "ecliptic"), op("rotate", "E")]) + ">>"}, invariants=["GalacticRight", "BothBlocked", "Emit"])
    right = ck.tlc("Frames", {"Program": "<<" + ", ".join([op("block", "galactic"), op("rotate", "E"), op("block", "ecliptic")]) + ">>"}, invariants=["GalacticRight", "BothBlocked", "Emit"], name="Frames-right")
    if coded[0]["right"] or not right[0]["right"]:
        raise MachineryError("frames")
    visibility(ck, coded)
    bulk(ck)
    nz = fn.result()
    ck.rng.shuffle(nz)
    lines = distributions(ck, nz)
    ck.sample({"distribution": nz[0]})
    eq = fe.result()
    eq = [r for r in eq if r["edges"][0]["lo"] == r["edges"][0]["hi"] or True]
    ck.rng.shuffle(eq)
    lines += equal(ck, eq[: 1200 if q else 20000])
    tomo(ck, ft.result())
    ck.validate("SurveyTrace", lines)


main("C23", run)
