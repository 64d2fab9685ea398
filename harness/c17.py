"""C17: ellipticities (Segments.tla, Redraw.tla, RejectExec.tla, Triaxial.tla, Resample.tla)."""
import itertools

from vf import *  # noqa: F403

F = Fraction


def fr(v):
    f = F(float(v))
    return [f.numerator, f.denominator]


def sky(u, k, order=(0, 1)):
    """Cosines and azimuths from blocks of k uniform numbers, drawn in either order."""
    c, p = (u[i * k : (i + 1) * k] for i in order)
    return 2 * c - 1, 2 * math.pi * p


def either(a, b, **kw):
    """Complex numbers whose real parts are drawn before or after the imaginary parts."""
    b = np.asarray(b, complex)
    return close(a, b, **kw) or close(a, 1j * np.conj(b), **kw)


def execute(ck, cases, name):
    """Exact outcome of rejection sampling for every case, from TLC."""
    recs = ck.tlc("RejectExec", trace=cases, invariants=["Kept", "Emit"], properties=["Final"], name=name)
    return {r["c"] - 1: r for r in recs}


# ---- Gaussian

def gaussian_cases(ck, segs, hists):
    """Streams realising histories of accepted and rejected draws for every segment."""
    plans = []
    for m, r in enumerate(segs):
        s = [tuple(x) for x in r["s"]]
        cnt = np.asarray(r["cnt"], int)
        par = np.asarray([[0.25, 0.5, 1.0, 0.125, 0.75, 0.0][(i + m) % 6] for i in range(int(np.prod(s[1], dtype=int)))])
        stream, rounds = [], 0
        for g in r["seg"]:
            n, sig = g["count"], par[g["par"][0]]
            left = n
            while left:
                rounds += 1
                rej = np.zeros(left, bool)
                if sig > 0 and rounds < 40:
                    h = hists[int(ck.rng.integers(len(hists)))]
                    rej = np.asarray([x == "lo" for x in list(h["hist"][int(ck.rng.integers(len(h["hist"])))]) * left][:left])
                a, b = np.zeros(left), np.zeros(left)
                for i in range(left):
                    lim = 64 if sig == 0 else 1 / sig
                    while True:
                        x, y = (float(ck.rng.integers(-64, 65)) / 32 * min(lim, 6) for _ in range(2))
                        x, y = round(x * 16) / 16, round(y * 16) / 16
                        e = (sig * x) ** 2 + (sig * y) ** 2
                        if abs(e - 1) > 1e-3 and (e > 1) == rej[i]:
                            break
                    if sig > 0 and not rej[i] and ck.rng.integers(6) == 0:
                        x, y = (1 / sig, 0.0) if (1 / sig * 16) % 1 == 0 else (x, y)  # exactly on the unit circle
                    a[i], b[i] = x, y
                stream += [*a, *b]
                left = int(rej.sum())
        plans.append((r, s, cnt, par, stream))
    return plans


def gaussian(ck, segs, hists):
    plans = gaussian_cases(ck, segs, hists)
    cases = []
    for r, s, cnt, par, stream in plans:
        seg = [{"kind": "disc", "sig": [fr(par[g["par"][0]])] * g["count"]} for g in r["seg"]]
        cases.append({"seg": seg or [{"kind": "disc", "sig": []}], "s": [fr(v) for v in stream]})
    exp = execute(ck, cases, "RejectExec-gaussian")
    for c, (r, s, cnt, par, stream) in enumerate(plans):
        name, xp = BACKENDS[[0, 2][c % 2] if c % 60 else 1]
        d = {"shapes": s, "counts": cnt, "sigma": par, "normals": stream, "backend": name}
        want = np.asarray([complex(q[0][0] / q[0][1], q[1][0] / q[1][1]) for o in exp[c]["out"] for q in o], complex)
        if exp[c]["used"] != len(stream):
            raise MachineryError("stream plan and specification disagree")
        ck.traces += 1
        with ck.case("ellipticity_gaussian", d):
            rng = Script(z=stream)
            a = mk(xp, cnt.reshape(s[0]), int)
            b = mk(xp, par.reshape(s[1]))
            kw = {}
            if not s[0] and c % 3 == 0:
                a = int(cnt[0])
            if not s[1] and c % 5 == 0:
                b = float(par[0])
                kw = {"xp": xp}
            got = glass.ellipticity_gaussian(a, b, rng=rng, **kw)
            ck.ok(either(got, want, rtol=1e-12, atol=1e-12) and nsname(got) == name, "Gaussian ellipticities: segments, redraws and dispersions",
                  lambda: {**d, "got": got, "expected": want})
            ck.ok(rng.iz == len(stream), "only ellipticities above one are redrawn", d)
            ck.ok(bool(np.all(np.abs(npa(got)) <= 1)), "modulus at most one", d)


# ---- intrinsic normal

def intnorm(ck, segs):
    for c, r in enumerate(segs):
        s = [tuple(x) for x in r["s"]]
        cnt = np.asarray(r["cnt"], int)
        par = np.asarray([[0.25, 0.0, 0.7, 0.1, 0.5, 0.3][(i + c) % 6] for i in range(int(np.prod(s[1], dtype=int)))])
        z = ck.rng.normal(size=2 * r["total"]) * [1.0, 4.0][c % 2]
        if len(z):
            z[:: 5] = 0.0
        want = []
        for g in r["seg"]:
            o, n = 2 * g["from"], g["count"]
            sg = par[g["par"][0]]
            eta = sg * math.sqrt((8 + 5 * sg**2) / (2 - 4 * sg**2)) * (z[o : o + n] + 1j * z[o + n : o + 2 * n])
            want += [complex(0) if e == 0 else e / abs(e) * math.tanh(abs(e) / 2) for e in eta]
        name, xp = BACKENDS[[0, 2][c % 2] if c % 60 else 1]
        d = {"shapes": s, "counts": cnt, "sigma": par, "backend": name}
        ck.traces += 1
        with ck.case("ellipticity_intnorm", d):
            rng = Script(z=z)
            a, b, kw = mk(xp, cnt.reshape(s[0]), int), mk(xp, par.reshape(s[1])), {}
            if not s[0] and c % 3 == 0:
                a = int(cnt[0])
            if not s[1] and c % 5 == 0:
                b, kw = float(par[0]), {"xp": xp}
            got = glass.ellipticity_intnorm(a, b, rng=rng, **kw)
            ck.ok(either(got, want) and nsname(got) == name, "intrinsic-normal ellipticities per entry",
                  lambda: {**d, "got": got, "expected": want})
            ck.ok(bool(np.all(np.abs(npa(got)) <= 1 + 1e-12)), "modulus at most one", d)
    for name, xp in BACKENDS:
        for sg in (-0.1, 0.5**0.5, 0.8, math.nan, math.inf, -1e-12):
            ck.raises(ValueError, "dispersion out of range is refused", lambda: glass.ellipticity_intnorm(3, sg, xp=xp), (name, sg))
            ck.raises(ValueError, "dispersion out of range is refused",
                      lambda: glass.ellipticity_intnorm(mk(xp, [1, 2, 3], int), mk(xp, [0.1, sg, 0.1])), (name, sg))


# ---- triaxial

def ratio_of(zeta, xi, nx, ny, nz):
    """Axis ratio of the shadow, from trace and determinant (Triaxial.tla)."""
    a = np.array([np.ones_like(zeta), zeta**2, xi**2])
    t = a.sum(0) - (a[0] * nx**2 + a[1] * ny**2 + a[2] * nz**2)
    dd = a[1] * a[2] * nx**2 + a[0] * a[2] * ny**2 + a[0] * a[1] * nz**2
    r = dd / t**2
    return np.sqrt(2 * r / (1 - 2 * r + np.sqrt(np.maximum(1 - 4 * r, 0))))


def shadow(zeta, xi, nz, ph):
    st = np.sqrt(1 - nz**2)
    return ratio_of(zeta, xi, st * np.cos(ph), st * np.sin(ph), nz)


def directions():
    out = set()
    for base in [(0, 0, 1, 1), (0, 3, 4, 5), (1, 2, 2, 3), (2, 3, 6, 7)]:
        for p in itertools.permutations(base[:3]):
            for sg in itertools.product((1, -1), repeat=3):
                out.add((*[a * b for a, b in zip(p, sg)], base[3]))
    return sorted(out)


def triaxial(ck, recs):
    by = {}
    for r in recs:
        by.setdefault((Q(r["zeta"]), Q(r["xi"])), []).append(r)
    for m, ((ze, xi), rs) in enumerate(sorted(by.items())):
        n = np.asarray([[v / r["n"][3] for v in r["n"][:3]] for r in rs])
        R = np.asarray([r["ratio"][0] / r["ratio"][1] for r in rs])
        uc, up = (n[:, 2] + 1) / 2, (np.arctan2(n[:, 1], n[:, 0]) / (2 * math.pi)) % 1.0
        name, xp = BACKENDS[[0, 2][m % 2] if m % 12 else 1]
        d = {"zeta": ze, "xi": xi, "backend": name}
        ck.traces += 1
        with ck.case("triaxial_axis_ratio", d):
            arg = [(float(ze), float(xi), {"size": len(rs), "xp": xp}), (mk(xp, np.full(len(rs), float(ze))), float(xi), {}),
                   (mk(xp, np.full(len(rs), float(ze))), mk(xp, np.full(len(rs), float(xi))), {}),
                   (float(ze), mk(xp, float(xi)), {"size": (len(rs),)})][m % 4]
            good = lambda q: q.shape == (len(rs),) and close(q**2 / (1 + q**2) ** 2, R, atol=1e-10)
            q = npa(glass.triaxial_axis_ratio(arg[0], arg[1], rng=Script(u=[*uc, *up]), **arg[2]))
            if not good(q):  # azimuth drawn first
                q = npa(glass.triaxial_axis_ratio(arg[0], arg[1], rng=Script(u=[*up, *uc]), **arg[2]))
            ck.ok(good(q), "projected axis ratio is exact",
                  lambda: {**d, "got": q, "n": n, "ratio": R})
            ck.ok(bool(np.all((q >= float(xi) - 1e-7) & (q <= 1 + 1e-9))), "axis ratio between minor/major and one", lambda: {**d, "got": q})
    # arrays: every entry its own ratios
    for m in range(20 if ck.quick else 150):
        zs, xs = [((4,), ()), ((3, 1), (2,)), ((), (2, 2)), ((2, 3), (2, 3))][m % 4]
        dims = np.broadcast_shapes(zs, xs)
        k = int(np.prod(dims))
        ze = ck.rng.uniform(0.5, 1, zs)
        xi = ck.rng.uniform(0.05, 0.5, xs)
        size = [None, dims][m // 4 % 2]
        u = ck.rng.uniform(size=2 * k)
        zb, xb = np.broadcast_to(ze, dims).ravel(), np.broadcast_to(xi, dims).ravel()
        name, xp = BACKENDS[[0, 2, 1][m % 3] if m < 9 else [0, 2][m % 2]]
        with ck.case("triaxial_axis_ratio for arrays", {"zs": zs, "xs": xs, "backend": name}):
            a, b = mk(xp, ze), mk(xp, xi)
            q = glass.triaxial_axis_ratio(a, b, size, rng=Script(u=u))
            ck.ok(any(close(q, shadow(zb, xb, *sky(u, k, o)).reshape(dims), atol=1e-8) for o in ((0, 1), (1, 0))) and nsname(q) == name,
                  "projected axis ratios of arrays", lambda: {"zeta": ze, "xi": xi, "u": u, "got": q})
            ck.ok(same(a, ze) and same(b, xi), "arguments are unchanged", name)


# ---- Ryden

def rounded(eps, gam, u, shape):
    """Ellipticities from axis ratios and three blocks of uniform numbers, for every order of drawing these."""
    zeta, n = 1 - np.exp(eps), len(eps)
    out = []
    for c, p, r in itertools.permutations(range(3)):
        q = shadow(zeta, (1 - gam) * zeta, *sky(u, n, (c, p)))
        out.append(((1 - q) / (1 + q) * np.exp(2j * math.pi * u[r * n : (r + 1) * n])).reshape(shape))
    return out


def ryden(ck, num):
    plans, cases = [], []
    shapes = [((), (), (), ()), ((3,), (), (), ()), ((), (2, 1), (3,), ()), ((2,), (2,), (2,), (2,)), ((), (), (), (4,)), ((2, 1), (), (1, 2), ())]
    for m in range(num):
        sh = shapes[m % len(shapes)]
        dims = np.broadcast_shapes(*sh)
        size = None
        if m // 6 % 3 == 1 and dims == ():
            size = [5, (2, 3)][m % 2]
        elif m // 6 % 3 == 2:
            size = (2, *dims)
        full = dims if size is None else ((size,) if isinstance(size, int) else size)
        n = int(np.prod(full, dtype=int))
        dy = lambda s, c: ck.rng.choice(c, int(np.prod(s, dtype=int))).reshape(s)
        mu, sg = dy(sh[0], [-1.0, -0.5, -2.0, 0.25] if m % 5 else [-1 / 256, 0.0, 1 / 256]), dy(sh[1], [0.5, 1.0, 0.25] if m % 5 else [1 / 256, 1 / 128])
        ga, sga = dy(sh[2], [0.25, 0.5, 0.75]), dy(sh[3], [0.25, 0.5])
        parts = []
        for loc, sc, lo, hi in ((mu, sg, -9.0, 0.0), (ga, sga, 0.0, 1.0)):
            L, S = (np.broadcast_to(x, full).ravel() for x in (loc, sc))
            miss = np.arange(n)
            rounds = 0
            z = []
            while len(miss):
                rounds += 1
                good = ck.rng.uniform(size=len(miss)) < (0.55 if rounds < 6 else 1)
                nxt = []
                for i, g in zip(miss, good):
                    while True:
                        v = float(ck.rng.integers(-160, 161)) / 16
                        x = L[i] + S[i] * v
                        if (lo <= x <= hi) == bool(g) and (lo == 0 or x < 0 or not g) and x != 0 and abs(x) < 4:
                            break
                    z.append(v)
                    if not g:
                        nxt.append(i)
                miss = np.asarray(nxt, int)
            parts.append(z)
        z = sum(parts, [])
        cases.append({"seg": [{"kind": "range", "loc": [fr(v) for v in np.broadcast_to(a, full).ravel()],
                               "sig": [fr(v) for v in np.broadcast_to(b, full).ravel()], "lo": lo, "hi": hi}
                              for a, b, lo, hi in ((mu, sg, [0, 0], [0, 1]), (ga, sga, [0, 1], [1, 1]))],
                      "s": [fr(v) for v in z]})
        plans.append((full, size, mu, sg, ga, sga, parts))
    exp = execute(ck, cases, "RejectExec-ryden")
    for c, (full, size, mu, sg, ga, sga, parts) in enumerate(plans):
        n = int(np.prod(full, dtype=int))
        name, xp = BACKENDS[[0, 2][c % 2] if c % 30 else 1]
        d = {"size": size, "mu": mu, "sigma": sg, "gamma": ga, "sigma_gamma": sga, "backend": name}
        eps, gam = (np.asarray([q[0][0] / q[0][1] for q in o]) for o in exp[c]["out"])
        u = ck.rng.uniform(size=3 * n)
        want = rounded(eps, gam, u, full)
        ck.traces += 1
        with ck.case("ellipticity_ryden04", d):
            arr = [mk(xp, v) for v in (mu, sg, ga, sga)]
            kw = {}
            if c % 4 == 0 and all(np.ndim(v) == 0 for v in (mu, sg, ga, sga)):
                arr, kw = [float(v) for v in (mu, sg, ga, sga)], {"xp": xp}
            for back in (False, True):  # ratios of the axes drawn in either order
                z = sum(parts[::-1] if back else parts, [])
                rng = Script(u=u, z=z)
                try:
                    got = glass.ellipticity_ryden04(*arr, size, rng=rng, **kw)
                except MachineryExhausted:
                    if back:
                        raise
                    continue
                good = any(close(got, w, atol=1e-7) for w in want)
                if good and rng.iz == len(z):
                    break
            ck.ok(good and nsname(got) == name, "Ryden ellipticities with parameters of each entry",
                  lambda: {**d, "got": got, "expected": want[0]})
            ck.ok(rng.iz == len(z), "only parameters out of range are redrawn", d)
            ck.ok(bool(np.all(np.abs(npa(got)) <= 1)), "modulus at most one", d)


# ---- resampling

def resample(ck, recs):
    for m, r in enumerate(recs):
        mod = np.asarray(qf(r["r"], 1))
        name, xp = BACKENDS[[0, 2][m % 2] if m % 50 else 1]
        shape = [(len(mod),), (1, len(mod)), (len(mod) // 2, 2), (len(mod), 1)][m % 4] if len(mod) % 2 == 0 else (len(mod),)
        e = (mod * np.exp(1j * ck.rng.uniform(0, 7, len(mod)))).reshape(shape)
        u = ck.rng.uniform(size=len(mod))
        Fv = r["F"][0] / r["F"][1]
        d = {"r": mod, "F": Fv, "varg": r["vg"], "vargamma": r["vgamma"], "backend": name}
        ck.traces += 1
        for kw, f in (({}, 1.0), ({"vargamma": qf(r["vgamma"])}, Fv), ({"varg": qf(r["vg"])}, Fv)):
            if kw.get("varg", 0) >= min(0.5, 2 * float(np.mean(mod**2))) and kw["varg"] > float(np.mean(mod**2)) * (1 - 1e-9):
                continue  # two solutions
            with ck.case("resample_shapes", {**d, **kw}):
                a = mk(xp, e, complex)
                kw2 = {k: min(v, float(np.mean(np.abs(e) ** 2)) * (1 - 1e-12)) for k, v in kw.items()}
                got = glass.resample_shapes(a, rng=Script(u=u), **kw2)
                g = npa(got).ravel()
                tol = 1e-9 if f > 0 else 1e-5
                ck.ok(npa(got).shape == shape and bool(np.allclose(np.abs(g), f * mod, rtol=tol, atol=tol)) and nsname(got) == name,
                      "resampling scales moduli by the factor that realises the variance", lambda: {**d, **kw, "got": np.abs(g)})
                ok = np.abs(g) > 1e-4
                ck.ok(bool(np.allclose(g[ok] / np.abs(g[ok]), np.exp(2j * math.pi * u[ok]), atol=1e-9)), "orientations are uniform in the random number", d)
                ck.ok(same(a, e), "argument is unchanged", d)
        # the variance of the shapes themselves is not too large, and leaves none
        ev = np.array([2.0 ** -int(k) for k in ck.rng.integers(0, 4, 4)])
        ee = ev * 1j ** ck.rng.integers(0, 4, 4)
        for kw in ({"varg": float(np.mean(ev**2))}, {"vargamma": float(np.mean(ev**2))}):
            with ck.case("resample_shapes", {"r": ev, **kw, "backend": name}):
                got = npa(glass.resample_shapes(mk(xp, ee, complex), rng=Script(u=u[:1].repeat(4)), **kw))
                ck.ok(got.shape == (4,) and (not got.any() or kw.get("varg", 0) >= 0.5), "shapes whose variance is that of the shear become round", lambda: {"r": ev, **kw, "got": got})
        if m % 5 == 0:
            v = float(np.mean(mod**2)) * (1 + 1e-9) + 1e-9
            for kw in ({"varg": v}, {"vargamma": v}, {"varg": 0.01, "vargamma": 0.01}):
                ck.raises(ValueError, "variance that is too large is refused", lambda: glass.resample_shapes(mk(xp, e, complex), rng=Script(u=u), **kw), (name, kw))


def bulk(ck):
    """Catalogues of realistic length, by the formulas and histories of the specification."""
    for t, n in enumerate([[60_001], [3, 30_000, 0, 500]] if ck.quick else [[1_000_001], [3, 30_000, 0, 500], [65_536, 1], [60_001]]):
        name, xp = BACKENDS[[0, 2, 1][t % 3]]
        shape = () if len(n) == 1 else (len(n),)
        sg = np.array([0.3, 0.45, 0.2, 0.6])[: len(n)]
        det = {"counts": n, "backend": name}
        ck.traces += 1
        with ck.case("many ellipticities", det, timeout=200):
            s = Script(z_default=0.0)
            took = []
            s._take = lambda kind, sh: took.append(ck.rng.normal(size=sh)) or took[-1]  # noqa: B023
            got = npa(glass.ellipticity_gaussian(mk(xp, np.reshape(n, shape), int), mk(xp, sg.reshape(shape)), rng=s))
            st = np.concatenate([np.ravel(v) for v in took])
            exp, at = [], 0
            for k, w in zip(n, sg):
                e, idx = np.zeros(k, complex), np.arange(k)
                while len(idx):
                    m = len(idx)
                    x = st[at : at + 2 * m]
                    if len(x) < 2 * m:
                        break
                    e[idx] = w * (x[:m] + 1j * x[m:])
                    at += 2 * m
                    idx = idx[np.abs(e[idx]) > 1]
                exp.append(e)
            ck.ok(at == len(st) and either(got, np.concatenate(exp), rtol=1e-10, atol=1e-12), "Gaussian ellipticities of a long catalogue", det)
            z = ck.rng.normal(size=2 * sum(n))
            got = npa(glass.ellipticity_intnorm(mk(xp, np.reshape(n, shape), int), mk(xp, sg.reshape(shape)), rng=Script(z=z)))
            exp, at = [], 0
            for k, w in zip(n, sg):
                eta = w * math.sqrt((8 + 5 * w**2) / (2 - 4 * w**2)) * (z[at : at + k] + 1j * z[at + k : at + 2 * k])
                at += 2 * k
                exp.append(eta / np.abs(eta) * np.tanh(np.abs(eta) / 2))
            ck.ok(either(got, np.concatenate(exp)), "intrinsic-normal ellipticities of a long catalogue", det)
            k = sum(n)
            u = ck.rng.uniform(size=2 * k)
            ze, xi = ck.rng.uniform(0.5, 1, k), ck.rng.uniform(0.05, 0.5, k)
            q = npa(glass.triaxial_axis_ratio(mk(xp, ze), mk(xp, xi), rng=Script(u=u)))
            ck.ok(any(close(q, shadow(ze, xi, *sky(u, k, o)), atol=1e-6) for o in ((0, 1), (1, 0))), "axis ratios of a long catalogue", det)
            e = 0.6 * np.sqrt(u[:k]) * np.exp(7j * u[k:])
            for kw in ({"varg": 0.02}, {"vargamma": 0.02}):
                g = npa(glass.resample_shapes(mk(xp, e, complex), rng=Script(u=u[:k]), **kw))
                f = np.abs(g) / np.abs(e)
                ck.ok(bool(np.ptp(f) < 1e-9) and close(g / np.abs(g), np.exp(2j * math.pi * u[:k])), "resampled shapes of a long catalogue", det)
            e = e * 1e-4   # nearly round shapes
            for kw in ({"vargamma": 5e-10}, {"varg": 5e-10}):
                g = npa(glass.resample_shapes(mk(xp, e, complex), rng=Script(u=u[:k]), **kw))
                f2 = 1 - 5e-10 / np.mean(np.abs(e) ** 2)
                ck.ok(close(np.abs(g) ** 2 / np.abs(e) ** 2, np.full(k, f2), rtol=1e-5), "resampling scales moduli by the factor that realises the variance", {**det, **kw})
            # parameters of each entry, redrawn where out of range, entry by entry
            s = Script(z_default=0.0, u_default=lambda j: ck.rng.uniform(size=j))
            tu, tz = [], []
            s._take = lambda kind, sh: (tz if kind == "z" else tu).append(ck.rng.normal(size=sh) if kind == "z" else ck.rng.uniform(size=sh)) or (tz if kind == "z" else tu)[-1]  # noqa: B023
            mu = ck.rng.uniform(-3, 0, k)
            gm = ck.rng.uniform(0.1, 0.9, k)
            g = npa(glass.ellipticity_ryden04(mk(xp, mu), 0.5, mk(xp, gm), 0.3, rng=s))
            z, u, good = np.concatenate([np.ravel(v) for v in tz]), np.concatenate([np.ravel(v) for v in tu]), False
            for order in ((0, 1), (1, 0)):
                at, pars = 0, [np.zeros(k), np.zeros(k)]
                for j in order:
                    loc, w, lo, hi = ((mu, 0.5, -np.inf, 0), (gm, 0.3, 0, 1))[j]
                    p, idx = pars[j], np.arange(k)
                    while len(idx) and at + len(idx) <= len(z):
                        p[idx] = loc[idx] + w * z[at : at + len(idx)]
                        at += len(idx)
                        idx = idx[(p[idx] < lo) | (p[idx] > hi)]
                if at == len(z) and len(u) == 3 * k and len(idx) == 0:
                    fl = pars[0] < -1e-3
                    good = good or any(bool(np.all(np.abs(g - w)[fl] < 1e-6)) for w in rounded(*pars, u, (k,)))
            ck.ok(good, "Ryden ellipticities of a long catalogue", lambda: {**det, "drawn": [len(z), len(u)]})
            ck.ok(g.shape == (k,) and bool(np.all(np.abs(g) <= 1)), "modulus at most one", det)


def run(ck):
    q = ck.quick
    f1 = ck.tlc_bg("Segments", {"Shapes": "{<<>>, <<1>>, <<2>>, <<3>>, <<3, 1>>, <<2, 2>>, <<1, 2>>, <<0>>}", "NPar": 1, "Counts": "{0, 1, 2, 4}",
                                "MaxVary": 3}, invariants=["Partition", "InBounds", "Emit"])
    f2 = ck.tlc_bg("Redraw", {"N": 3, "R": 2, "Out": '{"lo"}', "In": '{"in"}'}, invariants=["First", "Emit"], properties=["Final", "Stops"])
    f3 = ck.tlc_bg("Triaxial", {"Zs": "{1, 2, 3, 4}", "ZD": 4, "Dirs": "{" + ", ".join(tla(x) for x in directions()) + "}"},
                   invariants=["Unit", "Bounds", "Axes", "Emit"])
    f4 = ck.tlc_bg("Resample", {"M": 4, "Rs": "{0, 1, 2, 4}", "RD": 5, "Fs": "0..4", "FD": 4}, invariants=["Sane", "Realised", "Emit"])
    f5 = ck.tlc_bg("Resample", {"M": 1, "Rs": "1..4", "RD": 5, "Fs": "0..5", "FD": 5}, invariants=["Sane", "Realised", "Emit"])
    segs = f1.result()
    ck.rng.shuffle(segs)
    ck.sample(segs[0])
    gaussian(ck, segs[: 400 if q else 3000], f2.result())
    intnorm(ck, segs[: 400 if q else 3000])
    triaxial(ck, f3.result())
    ryden(ck, 120 if q else 800)
    rs = f4.result()
    ck.rng.shuffle(rs)
    ck.sample(rs[0])
    resample(ck, rs[: 300 if q else 1500] + f5.result())
    bulk(ck)


main("C17", run)
