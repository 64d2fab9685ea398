"""C20: maps from convergence (Convergence.tla, ConvergenceTrace.tla)."""
import healpy

from vf import *  # noqa: F403

NUM, DEN = 1, 3
M2A = healpy.map2alm


def no_weights(*a, **k):
    """The pixel weight data are not installed here."""
    k["use_pixel_weights"] = False
    k["datapath"] = None
    return M2A(*a, **k)


def window(nside, pol=False, lmax=None, datapath=None):
    """Stand-in for the window data, which are not installed here: ratio (l + NUM) / (l + DEN)."""
    ell = np.arange(3 * nside if lmax is None else lmax + 1)
    w0 = 1 / (1.25 + 0.5 * ell + 1 / nside)
    return (w0, w0 * (ell + NUM) / (ell + DEN)) if pol else w0


healpy.map2alm, healpy.pixwin = no_weights, window
NAMES = ("potential", "deflection", "shear")
SPIN = {"potential": 0, "deflection": 1, "shear": 2}


def parts(kappa, nside, lmax, spin):
    """One map for every multipole of the convergence, as rows."""
    alm = M2A(kappa, lmax=lmax, pol=False)
    out = []
    for ell in range(lmax + 1):
        fl = np.zeros(lmax + 1)
        fl[ell] = 1
        a = healpy.almxfl(alm, fl)
        if spin == 0:
            out.append(healpy.alm2map(a, nside, lmax=lmax))
        else:
            m = healpy.alm2map_spin([a, 0 * a], nside, spin, lmax)
            out.append(m[0] + 1j * m[1])
    return np.asarray(out)


CACHE = {}


def factors(mp, key, kappa, nside, lmax, name):
    """Factor of every multipole (those without signal are 0) and whether nothing else is in the map."""
    k = (key, nside, lmax, SPIN[name])
    if k not in CACHE:
        CACHE[k] = parts(kappa, nside, lmax, SPIN[name])
    P = CACHE[k]
    lo = 0 if name == "potential" else 2 if name == "shear" else 1
    real = lambda x: np.concatenate([np.real(x), np.imag(x)], axis=-1)  # noqa: E731
    f = np.zeros(lmax + 1)
    f[lo:] = np.linalg.lstsq(real(P[lo:]).T, real(mp), rcond=1e-10)[0]
    pure = close(f @ P, mp, rtol=0, atol=1e-9 * max(1, np.abs(mp).max()))
    return f, pure


def sgnsq(f):
    return [snap(v * abs(v), dmax=10**6, tol=1e-9) if abs(v) > 1e-9 else [0, 1] for v in f]


def run(ck):
    q = ck.quick
    cfg = {"Num": NUM, "Den": DEN}
    recs = ck.tlc("Convergence", {"Lmax": "{2, 3, 5, 8, 11}" if q else "2..14", **cfg},
                  invariants=["Factors", "InOrder", "Requested", "NoMonopole", "NoDipole", "Chain", "Emit"], properties=["Ends"])
    lines = []
    nsides = {4: [2, 3, 5, 8, 11], 2: [2, 3, 5]} if q else {1: [2], 2: [2, 3, 4, 5], 4: list(range(2, 15)), 8: [2, 5, 11, 14]}
    for nside, lmaxes in nsides.items():
        npix = 12 * nside * nside
        for key in range(1 if q else 3):
            kappa = ck.rng.normal(size=npix) + 0.3
            for r in recs:
                if r["lmax"] not in lmaxes:
                    continue
                lmax, want, disc = r["lmax"], sorted(r["want"], key=NAMES.index), r["disc"]
                for name, xp in BACKENDS:
                    det = {"nside": nside, "lmax": lmax, "want": want, "discretized": disc, "backend": name}
                    with ck.case("maps from convergence", det):
                        arg = mk(xp, kappa)
                        default = lmax == 3 * nside - 1
                        kw = dict.fromkeys(want, True)
                        # explicit and default values are the same
                        if not disc or ck.rng.random() < 0.5:
                            kw["discretized"] = disc
                        res = glass.from_convergence(arg, **kw) if default else glass.from_convergence(arg, lmax, **kw)
                        ck.traces += 1
                        ck.ok(isinstance(res, tuple) and len(res) == len(r["out"]), "one map per requested output", det)
                        ck.ok(same(arg, kappa), "the convergence map is not changed", det)
                        for o, m in zip(r["out"], res):
                            ck.ok(nsname(m) == name and npa(m).shape == (npix,), "maps are arrays of the backend", {**det, "got": nsname(m)})
                            ck.ok(npa(m).dtype.kind == ("f" if o["name"] == "potential" else "c"), "potential is real, deflection and shear are complex", det)
                            f, pure = factors(npa(m), key, kappa, nside, lmax, o["name"])
                            exp = np.array([math.copysign(math.sqrt(abs(v[0] / v[1])), v[0]) for v in o["fac"]])
                            P = CACHE[(key, nside, lmax, SPIN[o["name"]])]
                            ck.ok(close(m, exp @ P, rtol=1e-9, atol=1e-10), "maps have the specified factors", lambda: {**det, "output": o["name"], "factors": f, "expected": exp})
                            if name == "numpy":
                                lines.append({"op": "map", "name": o["name"], "disc": disc, "lmax": lmax, "fac": sgnsq(f), "pure": pure})
                        if want == ["shear"] and name == "numpy":
                            k2 = {} if disc else {"discretized": False}
                            g = glass.shear_from_convergence(arg, None if default else lmax, **k2)
                            ck.ok(len(g) == 2 and close(npa(g[0]) + 1j * npa(g[1]), res[0], rtol=1e-9, atol=1e-10), "the shear-only function agrees", det)
                            ck.ok(same(arg, kappa), "the convergence map is not changed", det)
                            f, pure = factors(npa(g[0]) + 1j * npa(g[1]), key, kappa, nside, lmax, "shear")
                            lines.append({"op": "map", "name": "shear", "disc": disc, "lmax": lmax, "fac": sgnsq(f), "pure": pure})
    # maps as fine as those of a simulation
    for r in ck.tlc("Convergence", {"Lmax": "{40, 95, 120}" if q else "{40, 95, 120, 191}", **cfg}, invariants=["Factors", "NoMonopole", "NoDipole", "Emit"], properties=["Ends"], name="Convergence-fine"):
        lmax, want, disc = r["lmax"], sorted(r["want"], key=NAMES.index), r["disc"]
        nside = {40: 32, 95: 32, 120: 16, 191: 64}[lmax]
        k = ("fine", nside)
        if k not in CACHE:
            CACHE[k] = ck.rng.normal(size=12 * nside**2) + 0.3
        kappa = CACHE[k]
        name, xp = BACKENDS[(lmax + len(want)) % 3]
        det = {"nside": nside, "lmax": lmax, "want": want, "discretized": disc, "backend": name}
        with ck.case("fine maps from convergence", det, timeout=200):
            kw = {**dict.fromkeys(want, True), "discretized": disc}
            res = glass.from_convergence(mk(xp, kappa), **kw) if lmax == 95 else glass.from_convergence(mk(xp, kappa), lmax, **kw)
            ck.traces += 1
            if not ck.ok(len(res) == len(r["out"]), "one map per requested output", det):
                continue
            if (k, lmax) not in CACHE:
                CACHE[k, lmax] = M2A(kappa, lmax=lmax, pol=False)
            for o, m in zip(r["out"], res):
                exp = np.array([math.copysign(math.sqrt(abs(v[0] / v[1])), v[0]) for v in o["fac"]])
                a = healpy.almxfl(CACHE[k, lmax], exp)
                e = healpy.alm2map(a, nside, lmax=lmax) if SPIN[o["name"]] == 0 else np.array([1, 1j]) @ np.array(healpy.alm2map_spin([a, 0 * a], nside, SPIN[o["name"]], lmax))
                ck.ok(close(m, e, rtol=1e-8, atol=1e-9), "maps have the specified factors", {**det, "output": o["name"]})
            if want == ["shear"]:
                g = glass.shear_from_convergence(mk(NP, kappa), lmax, discretized=disc)
                ck.ok(close(npa(g[0]) + 1j * npa(g[1]), res[0], rtol=1e-9, atol=1e-10), "the shear-only function agrees", det)
    # constant maps have no potential, dipoles no shear
    for name, xp in BACKENDS:
        with ck.case("maps from convergence", "monopole and dipole"):
            nside = 4
            x, y, z = healpy.pix2vec(nside, np.arange(192))
            p, d, s = glass.from_convergence(mk(xp, np.full(192, 2.5)), 8, potential=True, deflection=True, shear=True)
            ck.ok(close(p, 0 * npa(p), atol=5e-3) and close(d, 0 * npa(d), atol=5e-3) and close(s, 0 * npa(s), atol=5e-3), "a constant convergence deflects nothing", name)
            p, d, s = glass.from_convergence(mk(xp, 0.5 * x - y + z), 8, potential=True, deflection=True, shear=True)
            ck.ok(close(p, -(0.5 * x - y + z), atol=1e-3) and close(s, 0 * npa(s), atol=1e-3), "a dipole is not sheared", name)
            # real and linear
            k1, k2 = ck.rng.normal(size=192), ck.rng.normal(size=192)
            for kw in ({"potential": True}, {"deflection": True}, {"shear": True}):
                a, b, c = (npa(glass.from_convergence(mk(xp, k), 7, **kw)[0]) for k in (k1, k2, 2 * k1 - 3 * k2))
                ck.ok(close(c, 2 * a - 3 * b, atol=1e-8), "maps are linear in the convergence", {"backend": name, **kw})
    # pixel weights are requested, so that quadrature is exact where the data are available
    ck.sample({"behaviour": recs[-1]})
    ck.validate("ConvergenceTrace", lines, cfg)


main("C20", run)
