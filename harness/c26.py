"""C26: whole simulations against their prediction (LightCone.tla, Survey.tla, CatalogTrace.tla)."""
import fitsio
import healpy
import scipy.special
from vf import *  # noqa: F403

DH = 4.2e3
_map2alm = healpy.map2alm
healpy.map2alm = lambda *a, **k: _map2alm(*a, **{**k, "use_pixel_weights": False})  # (the weights are a download)


class Flat:
    """Flat geometry: plane at redshift zs[p] has distance x[p], and lensing amplitude f[p]."""

    hubble_distance = DH

    def __init__(self, zs, x, f, om=0.3):
        self.zs, self.x, self.f = np.array([0.0, *zs]), np.array([0.0, *x]), np.array([1.0, *f])
        self.Omega_m0 = om

    def _at(self, t, z):
        z = npa(z)
        i = np.abs(self.zs - z[..., None]).argmin(-1)
        if not np.allclose(self.zs[i], z, atol=1e-9):
            raise ValueError(f"distance asked for redshift {z}")
        r = t[i]
        return r if r.shape else float(r)

    def H_over_H0(self, z):  # noqa: N802
        r = (1 + npa(z)) * 1.5 * self.Omega_m0 / self._at(self.f, z)
        return r if np.ndim(r) else float(r)

    def transverse_comoving_distance(self, z, z2=None):
        r = DH * (self._at(self.x, z) if z2 is None else self._at(self.x, z2) - self._at(self.x, z))
        return r if np.ndim(r) else float(r)


def pix_cov(cl, nside):
    x = np.asarray(healpy.pix2vec(nside, np.arange(12 * nside**2)))
    mu = np.clip(x.T @ x, -1, 1)
    return sum((2 * l + 1) / (4 * np.pi) * c * scipy.special.eval_legendre(l, mu) for l, c in enumerate(cl))


def cone(fields, gls, nside, ncorr, cosmo, shells, g, rng):
    """The main loop of a simulation: means of the convergence and of the overdensity."""
    mpc = glass.MultiPlaneConvergence(cosmo)
    kb = db = 0.0
    for i, delta in enumerate(glass.generate(fields, gls, nside, ncorr=ncorr, rng=rng)):
        mpc.add_window(delta, shells[i])
        kb = kb + mpc.kappa * float(g[i, 0])
        db = db + delta * float(g[i, 1])
    return npa(kb) / g[:, 0].sum(), npa(db) / g[:, 1].sum()


def lightcone(ck, group, n, k, m):
    """One light cone whose multipoles are behaviours of the same geometry and galaxies."""
    name, xp = BACKENDS[[0, 0, 2, 0, 0][m % 5] if m % 17 or n != 2 else 1]
    r0 = group[0]
    nside = 1 if xp is JX else [1, 2][m % 2]
    x, a = r0["geo"]["x"], np.array(qf(r0["geo"]["a"], 1))
    g = np.array([r0["g1"], r0["g2"]], float).T
    bias = [None, 1.5, -0.5][m % 3]
    tophat = bool(m % 2)
    dz = 0.25
    zg = mk(xp, dz * np.arange(n + (1 if tophat else 2)))
    det = {"shells": n, "ncorr": k, "geometry": r0["geo"], "galaxies": g, "L": [r["L"] for r in group], "bias": bias, "tophat": tophat, "backend": name}
    with ck.case("light cone", det, timeout=120):
        shells = glass.tophat_windows(zg) if tophat else glass.linear_windows(zg)
        zs = [dz * (i + (0.5 if tophat else 1)) for i in range(n)]
        cosmo = Flat(zs, x, a / dz, [0.3, 1.0, 0.25][m % 3])
        # galaxies from a redshift distribution
        if not tophat:
            z = dz * np.arange(0, n + 1.01, 0.125)
            nz = sum(g[i][:, None] * np.interp(z, zs[i] + dz * np.array([-1, 0, 1]), [0, 1 / dz, 0]) for i in range(n))
            got = glass.partition(mk(xp, z), mk(xp, nz), shells)
            ck.ok(close(got, g, rtol=1e-7, atol=1e-7), "galaxies of a distribution made of the shells are split exactly", lambda: {**det, "got": got})
            back = npa(glass.combine(mk(xp, z), mk(xp, g), shells)) if g.ndim == 2 else None
            ck.ok(back is None or close(back, nz, rtol=1e-9, atol=1e-9), "and combine to the distribution", lambda: {**det, "got": back, "expected": nz})
        # spectra as other codes list them: autocorrelations first
        Cs = [np.array(r["L"]) @ np.array(r["L"]).T for r in group]
        hp_list = [mk(xp, [C[i + d, i] for C in Cs]) for d in range(n) for i in range(n - d)]
        cls = glass.healpix_to_glass_spectra(hp_list)
        cls = glass.discretized_cls(cls, ncorr=k, lmax=len(Cs) + m % 3)
        fields = glass.gaussian_fields(shells)
        # (the transforms of spectra do not take all arrays, and round: no singular spectra)
        how = m % 3 if xp is not BACKENDS[2][1] and all(r["L"][i][i] for r in group for i in range(n)) else 0
        gls = [cls, *[f(fields, cls) for f in (glass.compute_gaussian_spectra, glass.solve_gaussian_spectra)[how - 1 : how]]][-1] if how else cls
        if not any(npa(v).any() for v in gls):
            return
        # prediction by the library
        lw = glass.multi_plane_weights(mk(xp, g), shells, cosmo)
        pw = glass.position_weights(mk(xp, g), bias)
        b = 1.0 if bias is None else bias
        ck.ok(close(npa(lw)[:, 0], qf(r0["lw"], 1)) and close(npa(pw)[:, 1], b * np.array(qf(r0["pw"], 1))), "weights of the galaxies",
              lambda: {**det, "lensing": lw, "position": pw})
        kk, kd, dd = (np.array([qf(r[q]) for r in group]) for q in ("kk", "kd", "dd"))
        ek = npa(glass.effective_cls(cls, lw))
        ed = npa(glass.effective_cls(cls, pw))
        ex = npa(glass.effective_cls(cls, lw, pw))
        ck.ok(close(ek[0, 0], kk) and close(ed[1, 1], b * b * dd) and close(ex[0, 1], b * kd), "effective spectra predict the light cone",
              lambda: {**det, "got": [ek[0, 0], ed[1, 1], ex[0, 1]], "expected": [kk, b * b * dd, b * kd]})
        # the light cone itself: its response to every number drawn
        s = Script(z_default=0.0)
        zero = cone(fields, gls, nside, k, cosmo, shells, g, s)
        ck.ok(not zero[0].any() and not zero[1].any(), "zero numbers give an empty light cone", det)
        resp = []
        for t in range(s.iz):
            z = np.zeros(s.iz)
            z[t] = 1.0
            resp.append(cone(fields, gls, nside, k, cosmo, shells, g, Script(z=z)))
        rk, rd = np.array([r[0] for r in resp]), np.array([r[1] for r in resp])
        ck.traces += 1
        tol = 1e-8 if how < 2 else 1e-4
        for u, v, cl, what in ((rk, rk, kk, "convergence"), (rk, rd, kd, "convergence and density"), (rd, rd, dd, "density")):
            got, exp = u.T @ v, pix_cov(cl, nside)
            ck.ok(close(got, exp, rtol=tol, atol=tol * max(1, np.abs(exp).max())), "covariance of the light cone is the predicted one: " + what,
                  lambda: {**det, "largest deviation": np.abs(got - exp).max(), "predicted": cl})


def lognormal(ck, m):
    """Fields transformed from solved Gaussian spectra realise the spectra asked for."""
    name, xp = BACKENDS[0] if m % 6 != 4 else BACKENDS[1]
    n, nl, nside = 2 + m % 3, 3 + m % 2, 1 + m % 2
    lf = ck.rng.uniform(-0.3, 0.3, (nl, n, n))
    lf[:, np.arange(n), np.arange(n)] = 1.0
    lf = np.tril(lf)
    C = lf @ lf.swapaxes(1, 2) * (0.02 / (1 + np.arange(nl)) ** 2)[:, None, None]
    k = [n - 1, 1, None][m % 3]
    shift = [None, lambda z: 0.5 + z, lambda z: 2.0 / (1 + z)][m % 3]
    zg = mk(xp, 0.25 * np.arange(n + 1))
    det = {"C": C, "ncorr": k, "backend": name}
    with ck.case("lognormal light cone", det, timeout=200):
        shells = glass.tophat_windows(zg)
        fields = glass.lognormal_fields(shells, shift)
        lam = [1.0 if shift is None else shift(0.25 * (i + 0.5)) for i in range(n)]
        cls = glass.healpix_to_glass_spectra([mk(xp, C[:, i + d, i]) for d in range(n) for i in range(n - d)])
        if k is not None:
            cls = glass.discretized_cls(cls, ncorr=k)
        gls = glass.solve_gaussian_spectra(fields, cls)
        s = Script(z_default=0.0)
        list(glass.generate(fields, gls, nside, ncorr=k, rng=s))
        one = []
        base = None
        for t in range(-1, s.iz):
            z = np.zeros(s.iz)
            if t >= 0:
                z[t] = 1.0
            f = np.array([npa(v) for v in glass.generate(fields, gls, nside, ncorr=k, rng=Script(z=z))])
            # Gaussian field behind the map, up to its mean
            gauss = np.log1p(f / np.array(lam)[:, None])
            if t < 0:
                base = gauss
            else:
                one.append(gauss - base)
        one = np.array(one)
        mu, w = np.polynomial.legendre.leggauss(60)
        ck.traces += 1
        for i in range(n):
            for j in range(n):
                G = one[:, i].T @ one[:, j]
                gl = npa(glass.getcl(gls, i, j))
                keep = k is None or abs(i - j) <= k
                ck.ok(close(G, pix_cov(gl if keep else [0.0], nside), rtol=1e-8, atol=1e-10), "Gaussian fields have the solved spectra", lambda: {**det, "fields": (i, j)})
                g = sum((2 * l + 1) / (4 * np.pi) * c * scipy.special.eval_legendre(l, mu) for l, c in enumerate(gl))
                real = lam[i] * lam[j] * np.expm1(g if keep and len(gl) else 0 * mu)
                cl = [2 * np.pi * (w * real * scipy.special.eval_legendre(l, mu)).sum() for l in range(nl)]
                ck.ok(close(cl, C[:, i, j] if keep else np.zeros(nl), rtol=1e-4, atol=1e-9), "fields realise the spectra asked for",
                      lambda: {**det, "fields": (i, j), "got": cl, "expected": C[:, i, j]})
            # mean over the Gaussian numbers is zero: exponent of minus half the variance
            var = np.einsum("tp,tp->p", one[:, i], one[:, i])
            ck.ok(close(base[i], -var / 2, rtol=1e-7, atol=1e-9), "overdensities have zero mean", {**det, "field": i})


def survey(ck, r, m, lines):
    """A whole survey simulation, recorded galaxy by galaxy."""
    name, xp = BACKENDS[[0, 2, 0][m % 3]]
    nside = [1, 2, 4][m % 3]
    npix, Q, P, n = 12 * nside**2, len(r["vis"]), len(r["rate"]), len(r["ds"])
    batch = [1000, 5, 17][m % 3]
    det = {**r, "nside": nside, "batch": batch, "backend": name}
    ev = []
    with ck.case("survey", det, timeout=120):
        dz = 0.25
        zg = dz * np.arange(n + 1)
        shells = glass.tophat_windows(mk(xp, zg))
        cosmo = Flat([dz * (i + 0.5) for i in range(n)], list(range(1, n + 1)), np.full(n, 0.2) / dz)
        ext = lambda v: np.resize(np.array(v, float), npix)  # noqa: E731  (class of a pixel: its number modulo Q)
        dens = 1.0 / (4 * np.pi * (180 / np.pi) ** 2 * 3600 / npix)
        ngal = mk(xp, dens * np.array(r["rate"], float)) if P > 1 or m % 2 else dens * r["rate"][0]
        vis = mk(xp, ext(r["vis"]) / 2) if set(r["vis"]) != {2} or m % 2 else None
        rng = Script(u_default=lambda k: ck.rng.random(k), z_default=lambda k: ck.rng.normal(size=k), poisson=lambda lam: np.round(lam).astype(np.int64))
        mpc = glass.MultiPlaneConvergence(cosmo)
        ids, maps = 0, {}
        with tempfile.TemporaryDirectory() as td:
            fn = pathlib.Path(td) / "catalog.fits"
            with glass.write_catalog(fn, ext="CATALOG") as out:
                ev.append({"ev": "start", "vis": r["vis"], "rate": r["rate"], "ds": r["ds"], "batch": batch})
                for i in range(n):
                    delta = mk(xp, ext(r["ds"][i]))
                    mpc.add_window(delta, shells[i])
                    kap = npa(mpc.kappa) + 0.05 * np.sin(1.0 + np.arange(npix) * (i + 1.3))  # (a map without symmetries)
                    (g,) = glass.from_convergence(mk(xp, kap), shear=True, discretized=False)
                    g1, g2 = npa(g).real, npa(g).imag
                    maps[i + 1] = (npa(g1) + 1j * npa(g2)) / (1 - kap)
                    ev.append({"ev": "shell"})
                    for lon, lat, cnt in glass.positions_from_delta(ngal, delta, 1.0, vis, batch=batch, rng=rng):
                        k = len(npa(lon))
                        pop = np.repeat(np.arange(1, P + 1), np.atleast_1d(npa(cnt)).ravel())
                        z = npa(glass.redshifts(k, shells[i], rng=rng))
                        she = npa(glass.galaxy_shear(lon, lat, mk(xp, np.zeros(k)), mk(xp, kap), mk(xp, npa(g1)), mk(xp, npa(g2)))).reshape(-1)
                        pix = healpy.ang2pix(nside, npa(lon), npa(lat), lonlat=True)
                        rows = []
                        for j in range(k):
                            own = abs(she[j] - maps[i + 1][pix[j]]) < 1e-9
                            s, x = (i + 1, int(pix[j])) if own else min(((abs(she[j] - maps[s][x]), (s, x)) for s in maps for x in range(npix)))[1]
                            if not own and abs(she[j] - maps[s][x]) > 1e-9:
                                s = -1
                            rows.append({"p": int(pop[j]), "q": int(pix[j]) + 1, "z": int(np.floor(z[j] / dz)) + 1 if z[j] != zg[-1] else n, "s": s, "x": x + 1})
                        ev.append({"ev": "rows", "rows": rows})
                        out.write(ID=ids + 1 + np.arange(k), RA=npa(lon), DEC=npa(lat), Z=z, G1=she.real, G2=she.imag)
                        ids += k
            with fitsio.FITS(str(fn)) as h:
                t = h["CATALOG"].read() if ids else None
            ev.append({"ev": "file", "ids": [] if t is None else [int(v) for v in t["ID"]]})
            ck.traces += 1
            lines.setdefault(npix, []).extend(ev)


def run(ck):
    q = ck.quick
    geos = lambda xs, as_: "{" + ", ".join(f"[x |-> {tla(x)}, a |-> {tla([list(v) for v in a])}]" for x, a in zip(xs, as_)) + "}"  # noqa: E731
    inv = ["Lensing", "Density", "Cross", "Banded", "Causal", "Emit"]
    runs = []
    cfg = [(3, 2, "{1, 2}", "{-1, 0, 1}", geos([[1, 2, 3], [1, 3, 4]], [[(1, 2), (1, 1), (1, 4)], [(3, 4), (1, 2), (2, 1)]]), "{<<1, 1, 1>>, <<0, 1, 2>>, <<2, 0, 1>>}"),
           (4, 1, "{0, 1}", "{-1, 1}", geos([[1, 2, 3, 4]], [[(1, 2), (1, 1), (1, 4), (1, 1)]]), "{<<1, 0, 2, 1>>, <<0, 0, 0, 3>>, <<2, 1, 1, 0>>}"),
           (2, 1, "{0, 1, 3}", "{-2, 1}", geos([[1, 2], [5, 6]], [[(1, 2), (1, 1)], [(1, 1), (3, 1)]]), "{<<1, 0>>, <<0, 1>>, <<3, 2>>}"),
           (5, 0, "{0, 2}", "{0}", geos([[1, 2, 3, 4, 6]], [[(1, 2), (1, 1), (1, 4), (1, 1), (1, 1)]]), "{<<1, 0, 2, 1, 0>>, <<1, 2, 1, 3, 1>>}"),
           (1, 0, "{0, 2}", "{0}", geos([[2]], [[(1, 2)]]), "{<<3>>}")]
    if not q:
        cfg += [(4, 3, "{1}", "{-1, 0, 1}", geos([[1, 2, 4, 5]], [[(1, 2), (1, 1), (1, 4), (1, 1)]]), "{<<1, 0, 2, 1>>, <<1, 1, 1, 3>>}"),
                (5, 1, "{1, 2}", "{-1, 1}", geos([[1, 2, 3, 4, 6]], [[(1, 2), (1, 1), (1, 4), (1, 1), (1, 1)]]), "{<<1, 0, 2, 1, 1>>, <<0, 1, 0, 3, 1>>}")]
    for n, k, dg, off, ge, ga in cfg:
        runs.append((n, k, ck.tlc_bg("LightCone", {"N": n, "K": k, "Diag": dg, "Off": off, "Geos": ge, "Gals": ga}, invariants=inv, name=f"LightCone-{n}-{k}", workers=2)))
    maps = "{m \\in [1..2 -> {-1, 0, 1}] : m[1] # m[2]} \\cup {<<1, 1>>}"
    sv = [ck.tlc_bg("Survey", {"N": 2, "P": 2, "Q": 2, "Rates": "{0, 1, 2}", "Vis": "{0, 1, 2}", "B": 3, "Maps": maps}, invariants=["Own", "Seen", "Sorted", "Exact", "Emit"], name="Survey-2"),
          ck.tlc_bg("Survey", {"N": 3, "P": 1, "Q": 3, "Rates": "{1, 2}", "Vis": "{1, 2}", "B": 4, "Maps": "{<<1, -1, 0>>, <<0, 1, 1>>, <<-1, -1, -1>>}"}, invariants=["Own", "Seen", "Sorted", "Exact", "Emit"], name="Survey-3")]
    for m in range(8 if q else 90):
        lognormal(ck, m)
    lines = {}
    for f in sv:
        recs = [r for r in f.result() if all((a * (1 + d) * v) % 2 == 0 for a in r["rate"] for x in r["ds"] for d, v in zip(x, r["vis"]))]
        ck.sample(recs[0])
        for m, i in enumerate(ck.rng.permutation(len(recs))[: 45 if q else 600]):
            survey(ck, recs[int(i)], m, lines)
    for npix, ev in lines.items():
        ck.validate("CatalogTrace", ev, {"NPix": npix}, name=f"CatalogTrace-{npix}")
    for n, k, f in runs:
        recs = f.result()
        ck.sample(recs[0])
        by = {}
        for r in recs:
            by.setdefault(json.dumps([r["geo"], r["g1"], r["g2"]]), []).append(r)
        for m in range(24 if q else 240):
            keys = sorted(by)
            grp = by[keys[int(ck.rng.integers(len(keys)))]]
            lightcone(ck, [grp[int(i)] for i in ck.rng.integers(0, len(grp), [2, 3, 1, 4][m % 4])], n, k, m)


main("C26", run)
