"""C06: multi-plane lensing (Lensing.tla, LensingTrace.tla)."""
from vf import *  # noqa: F403

DH = 3.7e3


class Cosmo:
    """Cosmology of a geometry of the model; redshift of plane p is zs[p]."""

    hubble_distance = DH

    def __init__(self, s, c, f, om=0.3, zs=None):
        self.s, self.c, self.f = [0.0, *s], [1.0, *c], [1.5 * om, *f]
        self.Omega_m0 = om
        self.zs = [0.0, *(zs or [0.25 * (p + 1) for p in range(len(s))])]

    def idx(self, z):
        return self.zs.index(float(npa(z)))

    def H_over_H0(self, z):  # noqa: N802
        z = npa(z)
        r = np.array([(1 + v) * 1.5 * self.Omega_m0 / self.f[self.idx(v)] for v in z.ravel()]).reshape(z.shape)
        return r if r.shape else float(r)

    def transverse_comoving_distance(self, z, z2=None):
        a, b = (np.zeros(()), npa(z)) if z2 is None else (npa(z), npa(z2))
        a, b = np.broadcast_arrays(a, b)
        r = np.array([DH * (self.s[self.idx(v)] * self.c[self.idx(u)] - self.s[self.idx(u)] * self.c[self.idx(v)])
                      for u, v in zip(a.ravel(), b.ravel(), strict=True)]).reshape(a.shape)
        return r if r.shape else float(r)


def cosmo_of(geo, om, zs=None):
    return Cosmo(qf(geo["s"], 1), qf(geo["c"], 1), qf(geo["f"], 1), om, zs)


GEOS = {
    "flat": ("0", [(1, 1), (2, 1), (3, 1), (5, 1)], [(1, 1)] * 4),
    "closed": ("1", [(3, 5), (4, 5), (24, 25), (1, 1)], [(4, 5), (3, 5), (7, 25), (0, 1)]),
    "open": ("-1", [(3, 4), (15, 8), (63, 16), (255, 32)], [(5, 4), (17, 8), (65, 16), (257, 32)]),
}
FS = [(1, 2), (3, 4), (1, 1), (5, 8)]


def seq(v):
    return "<<" + ",".join(f"<<{a},{b}>>" for a, b in v) + ">>"


def replay(ck, r, name, xp, m):
    cosmo = cosmo_of(r["geo"], [0.3, 0.25, 1.0][m % 3])
    log = r["log"]
    n = len(log)
    shape = [(3,), (12,), (2, 5), ()][m % 4]
    deltas = [ck.rng.normal(size=shape) for _ in log]
    mpc = glass.MultiPlaneConvergence(cosmo)
    last = None
    d = {"geometry": r["geo"]["k"], "offers": [(e["p"], e["w"], e["ok"]) for e in log], "backend": name, "shape": shape}
    ck.traces += 1
    with ck.case("multi-plane convergence", d):
        for i, e in enumerate(log):
            z, w = cosmo.zs[e["p"]], qf(e["w"])
            delta = mk(xp, deltas[i])
            before = None if mpc.kappa is None else npa(mpc.kappa).copy()
            window = w > 0 and (m + i) % 2 == 0
            if window:
                # flat top of height h, so that integral / value at zeff is the weight
                h = 2.0
                za, wa = [([z - w / 2, z, z + w / 2], [h, h, h]),
                          # largest elsewhere, and effective redshift between nodes
                          ([z - w / 4, z, z + w], [3 * h, h, 0.0]),
                          ([z - w / 2, z + w / 2], [0.25 * h, 1.75 * h])][(m // 2 + i) % 3]
                wd = glass.RadialWindow(mk(xp, za), mk(xp, wa), z)
                call = lambda: mpc.add_window(delta, wd)  # noqa: E731
            else:
                zz = mk(xp, z) if (m + i) % 3 == 0 else z
                call = (lambda: mpc.add_plane(delta, zz)) if w == 1.0 else (lambda: mpc.add_plane(delta, zz, w))
            if e["ok"]:
                call()
                last = (z, w, i)
                exp = sum((qf(c) * deltas[j] for j, c in enumerate(e["kappa"]) if j < n), np.zeros(shape))
                ck.ok(close(mpc.kappa, exp, rtol=1e-9, atol=1e-10), "convergence is the direct lensing sum",
                      lambda: {**d, "offer": i, "got": mpc.kappa, "expected": exp})
                ck.ok(nsname(mpc.kappa) == name, "backend of the convergence", d)
            else:
                ck.raises(ValueError, "a plane that does not increase the redshift is refused", call, {**d, "offer": i})
                if before is None:
                    ck.ok(mpc.kappa is None or not npa(mpc.kappa).any(), "a refused plane changes nothing", {**d, "offer": i})
                else:
                    ck.ok(same(mpc.kappa, before), "a refused plane changes nothing", {**d, "offer": i})
            if last:
                ck.ok(float(npa(mpc.zsrc)) == last[0] and abs(float(npa(mpc.wlens)) - last[1]) < 1e-12 and same(mpc.delta, deltas[last[2]]),
                      "source redshift, weight and overdensity of the last plane", lambda: {**d, "offer": i, "zsrc": mpc.zsrc, "wlens": mpc.wlens})
            else:
                ck.ok(float(npa(mpc.zsrc)) == 0.0, "source redshift before the first plane", d)


def matrices(ck, recs, xps):
    """Matrix and weights for every accepted history, from the coefficients of the model."""
    seen = {}
    for r in recs:
        acc = [i for i, e in enumerate(r["log"]) if e["ok"]]
        if len(acc) > 1 and all(qf(r["log"][i]["w"]) > 0 for i in acc):
            seen.setdefault(json.dumps([r["geo"]["k"], [[r["log"][i]["p"], r["log"][i]["w"]] for i in acc]]), (r, acc))
    keys = sorted(seen)
    ck.rng.shuffle(keys)
    for m, k in enumerate(keys[: 150 if ck.quick else 2000]):
        r, acc = seen[k]
        name, xp = xps[m]
        n = len(acc)
        cosmo = cosmo_of(r["geo"], 0.3)
        M = np.array([[qf(r["log"][i]["kappa"][j]) for j in acc] for i in acc])
        shells = []
        for q, i in enumerate(acc):
            e = r["log"][i]
            z, w = cosmo.zs[e["p"]], qf(e["w"])
            if q % 2:
                shells.append(glass.RadialWindow(mk(xp, [z - w, z, z + w]), mk(xp, [0.0, 3.0, 0.0]), z))
            else:
                # not symmetric about the effective redshift
                shells.append(glass.RadialWindow(mk(xp, [z - 0.25 * w, z, z + 0.75 * w]), mk(xp, [0.5, 0.5, 0.5]), z))
        d = {"key": k, "backend": name}
        ck.traces += 1
        with ck.case("multi_plane_matrix", d):
            got = glass.multi_plane_matrix(shells, cosmo)
            ck.ok(close(got, M, atol=1e-10) and nsname(got) == name, "multi_plane_matrix rows are the convergence of unit shells",
                  lambda: {**d, "got": got, "expected": M})
        for shape in [(n,), (n, 2), (n, n), (n, 2, 3), (n, n, 2), (n, 1)]:
            with ck.case("multi_plane_weights", {**d, "shape": shape}):
                W = ck.rng.integers(1, 6, shape).astype(float)
                if m % 3 == 0:
                    W[0] *= -0.125  # the sum stays positive
                W0 = W.copy()
                a = mk(xp, W)
                got = glass.multi_plane_weights(a, shells, cosmo)
                exp = np.tensordot(M.T, W / W.sum(0), axes=1)
                ck.ok(close(got, exp, atol=1e-10) and nsname(got) == name and same(a, W0), "multi_plane_weights combine the matrix with normalised weights",
                      lambda: {**d, "shape": shape, "got": got, "expected": exp})
        ck.raises(ValueError, "weights of the wrong length are refused",
                  lambda: glass.multi_plane_weights(mk(xp, np.ones(n + 1)), shells, cosmo), d)
        ck.raises(ValueError, "weights of the wrong length are refused",
                  lambda: glass.multi_plane_weights(mk(xp, 1.0), shells, cosmo), d)


def long_histories(ck, ev, name, xp, m):
    q = ck.quick
    # flat geometry; plane p at integer distance x_p; (3/2) Omega_m (1+z)/E = f_p rational
    # planes from the observer on, or close to each other far away
    lo = [0, 0, 60, 300][m % 4]
    cand = [x for x in range(lo + 1, lo + 25)]
    zs = [0.05 * x for x in cand]
    f = [Q(FS[x % 4]) for x in cand]
    cosmo = Cosmo([float(x) for x in cand], [1.0] * len(cand), [float(v) for v in f], 0.3, zs)
    mpc = glass.MultiPlaneConvergence(cosmo)
    ev.append({"op": "start"})
    ck.traces += 1
    last = 0
    with ck.case("long history", {"backend": name}):
        for _ in range(14 if q else 30):
            p = int(ck.rng.integers(max(0, last - 3), min(24, last + 4) + 1))
            x = cand[p - 1] if p else 0
            delta, w = int(ck.rng.integers(-3, 4)), [Fraction(1), Fraction(1, 2), Fraction(2), Fraction(0), Fraction(-1, 2)][int(ck.rng.integers(5))]
            ok = True
            try:
                mpc.add_plane(mk(xp, [delta, 0, 2 * delta]), cosmo.zs[p], float(w))
                last = p
            except ValueError:
                ok = False
            k = npa(mpc.kappa) if mpc.kappa is not None else np.zeros(3)
            good = abs(k[1]) < 1e-12 and abs(k[2] - 2 * k[0]) < 1e-9
            a = (f[p - 1] if p else Fraction(0)) * w * delta
            ev.append({"op": "offer", "x": x, "a": [a.numerator, a.denominator], "ok": ok,
                       "kappa": snap(k[0], 20000, 1e-10, 10**7) if good else [0, 0], "zsrc": cand[cosmo.idx(mpc.zsrc) - 1] if cosmo.idx(mpc.zsrc) else 0})


def bulk(ck):
    """As many planes as a simulation has, in flat and curved geometries: the direct sum (Direct) evaluated in numbers."""
    for t in range(6 if ck.quick else 24):
        name, xp = BACKENDS[[0, 2, 1][t % 3]]
        n = [25, 120, 40][t // 3 % 3]
        chi = np.sort(ck.rng.uniform(0.05, 1.2, n))
        s, c = [(chi, np.ones(n)), (np.sin(chi), np.cos(chi)), (np.sinh(chi), np.cosh(chi))][t % 3]
        f, w = ck.rng.uniform(0.2, 2, n), ck.rng.uniform(0.01, 0.5, n)
        w[1::7] = 0.0
        cosmo = Cosmo(list(s), list(c), list(f), 0.3)
        M = np.tril(f * w * s * (s[:, None] * c - s * c[:, None]) / s[:, None], -1)
        delta = ck.rng.normal(size=(n, 3072))
        det = {"planes": n, "geometry": t % 3, "backend": name}
        ck.traces += 1
        with ck.case("many planes", det, timeout=200):
            mpc = glass.MultiPlaneConvergence(cosmo)
            exp = M @ delta
            for i in range(n):
                mpc.add_plane(mk(xp, delta[i]), cosmo.zs[i + 1], w[i])
                ck.ok(close(mpc.kappa, exp[i], rtol=1e-8, atol=1e-8), "convergence is the direct lensing sum", {**det, "plane": i})
            w[1::7] = 0.25
            M = np.tril(f * w * s * (s[:, None] * c - s * c[:, None]) / s[:, None], -1)
            shells = [glass.RadialWindow(mk(xp, [z - v, z, z + v]), mk(xp, [0.0, 3.0, 0.0]), z) for z, v in zip(cosmo.zs[1:], w)]
            ck.ok(close(glass.multi_plane_matrix(shells, cosmo), M, rtol=1e-8, atol=1e-9), "multi_plane_matrix rows are the convergence of unit shells", det)
            W = ck.rng.uniform(0, 1, (n, 6, 2)) * (ck.rng.uniform(size=(n, 6, 2)) < 0.7)
            ck.ok(close(glass.multi_plane_weights(mk(xp, W), shells, cosmo), np.tensordot(M.T, W / W.sum(0), axes=1), rtol=1e-8, atol=1e-9),
                  "multi_plane_weights combine the matrix with normalised weights", det)


def closest(ck):
    """Planes as close to each other as numbers can be are still planes."""
    for t, dz in enumerate([1e-6, 1e-9, 1e-12]):
        name, xp = BACKENDS[t % 3]
        x = [0.5, 0.5 + dz, 1.0]
        cosmo = Cosmo(x, [1.0] * 3, [0.5] * 3, 0.3, x)
        with ck.case("close planes", {"distance": dz, "backend": name}):
            mpc = glass.MultiPlaneConvergence(cosmo)
            for z, v in zip(x, (1.0, 2.0, 4.0)):
                mpc.add_plane(mk(xp, [v]), z)
            e = 0.5 * 0.5 * 0.5 * 1.0 + 0.5 * 0.5 * 0.5 * 2.0
            ck.ok(abs(float(npa(mpc.zsrc)) - 1.0) < 1e-12 and abs(float(npa(mpc.kappa)[0]) - e) < max(1e-5, 1e-15 / dz * 10), "convergence is the direct lensing sum",
                  lambda: {"distance": dz, "got": mpc.kappa, "expected": e, "backend": name})  # noqa: B023


def run(ck):
    q = ck.quick
    geos = "{" + ", ".join(f"[k |-> {k}, s |-> {seq(s)}, c |-> {seq(c)}, f |-> {seq(FS)}]" for k, s, c in GEOS.values()) + "}"
    inv = ["Geometry", "Direct", "LastPlane", "Causal", "Increasing", "Emit"]
    fu = ck.tlc_bg("Lensing", {"Geos": geos, "Ws": "{<<1,1>>}", "MaxOffers": 5}, invariants=inv, name="Lensing-history")
    fw = ck.tlc_bg("Lensing", {"Geos": geos, "Ws": "{<<1,2>>, <<2,1>>, <<0,1>>}", "MaxOffers": 3 if q else 4}, invariants=inv, name="Lensing-weights")
    ev = []
    for m in range(40 if q else 300):
        long_histories(ck, ev, *BACKENDS[[0, 2][m % 2] if m % 9 else 1], m)
    ck.validate("LensingTrace", ev)
    bulk(ck)
    closest(ck)
    ra, rb = fu.result(), fw.result()
    for recs, cap in ((ra, 900 if q else 9375), (rb, 700 if q else 20000)):
        ck.rng.shuffle(recs)
        ck.sample(recs[0])
        for m, r in enumerate(recs[:cap]):
            replay(ck, r, *BACKENDS[[0, 2][m % 2] if m % 25 else 1], m)
    matrices(ck, ra + rb, [BACKENDS[[0, 2][m % 2] if m % 12 else 1] for m in range(2000)])


main("C06", run)
