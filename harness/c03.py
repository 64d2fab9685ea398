"""C03: joint covariance of sequentially sampled fields (Sampler.tla, SamplerTrace.tla, Interleave.tla)."""
import itertools

import healpy
import scipy.special
from vf import *  # noqa: F403


def full(rec):
    """Banded covariance matrix of the emitted behaviour."""
    m = len(rec["C"])
    c = np.zeros((m, m))
    for i in range(m):
        for j in range(i + 1):
            c[i, j] = c[j, i] = rec["C"][i][j]
    return c


def cov_rows(covs, k):
    """Rows (nell, k+1) of a stack of covariance matrices, nearest field first."""
    m = covs[0].shape[0]
    out = []
    for i in range(m):
        r = np.zeros((len(covs), k + 1))
        for d in range(min(i, k) + 1):
            r[:, d] = [c[i, i - d] for c in covs]
        out.append(r)
    return out


def check_iternorm(ck, stack, k, name, xp, shape, bad_at):
    """Feed the rows; the weights must reproduce the covariance, up to the refused row."""
    covs = [full(r) for r in stack]
    m = min(c.shape[0] for c in covs)
    covs = [c[:m, :m] for c in covs]
    # covariances of any magnitude, and of different magnitudes at the same time
    ex = [[0], [0], [-18], [-40], [30], [-40, 0, 25], [-200, 3, 150]][int(ck.rng.integers(7))]
    u = 2.0 ** ck.rng.choice(ex, len(covs))
    rows = [(r * u[:, None] ** 2).reshape((*shape, k + 1)) for r in cov_rows(covs, k)]
    d = {"k": k, "shape": shape, "C": covs, "units": u, "refused row": bad_at, "backend": name}
    ck.traces += 1
    with ck.case("iternorm", d):
        it = glass.iternorm(iter([mk(xp, r) for r in rows]))
        got = []
        for i in range(m):
            if i == bad_at:
                ck.raises(ValueError, "iternorm refuses a covariance that is not positive semi-definite",
                          lambda: next(it), d)
                break
            w = next(it)
            ck.ok(nsname(w) == name and tuple(w.shape) == (*shape, k + 1), "shape of iternorm rows", d)
            got.append(npa(w).reshape(-1, k + 1) / u[:, None])
        f = np.zeros((len(covs), len(got), len(got)))
        for i, w in enumerate(got):
            for e in range(k + 1):
                if i - e >= 0:
                    f[:, i, i - e] = w[:, k - e]
                else:
                    ck.ok(not np.any(w[:, k - e]), "iternorm weight before the first field", d)
        c2 = f @ f.swapaxes(1, 2)
        e = np.stack([c[: len(got), : len(got)] for c in covs])
        ck.ok(close(c2, e), "iternorm reproduces the covariance", lambda: {**d, "rows": got, "covariance": c2})


def gls_of(stack, k, rng, xp, trim=True, cut=False, unit=1.0, longer=0):
    """Spectra of a stack of behaviours, ell by ell; ragged where trailing zeros allow."""
    covs = [full(r) for r in stack]
    m = covs[0].shape[0]
    out = []
    for i in range(m):
        for j in range(i, -1, -1):
            v = np.array([c[i, j] for c in covs], float)
            if trim:
                nz = np.nonzero(v)[0]
                lo = nz[-1] + 1 if nz.size else 0
                v = v[: rng.integers(lo, len(v) + 1)]
            if cut and i - j > k:
                v = v[:0]
            out.append(v)
    if max(len(v) for v in out) < len(covs):
        out[0] = np.concatenate([out[0], np.zeros(len(covs) - len(out[0]))])
    if longer:
        # the longest is any of the spectra
        q = int(rng.integers(len(out)))
        out[q] = np.concatenate([out[q], np.zeros(len(covs) + longer - len(out[q]))])
    out = [v * unit for v in out]
    return [mk(xp, v) for v in out], covs


def response(fields, gls, nside, ncorr, xp):
    """Linear response of all maps to every standard normal number drawn."""
    s = Script(z_default=0.0)
    zero = [npa(x) for x in glass.generate(fields, gls, nside, ncorr=ncorr, rng=s)]
    n = s.iz
    out = []
    for t in range(n):
        z = np.zeros(n)
        z[t] = 1.0
        out.append([npa(x) for x in glass.generate(fields, gls, nside, ncorr=ncorr, rng=Script(z=z))])
    return zero, np.asarray(out)  # (n, field, pixel)


def pix_cov(cl, nside):
    x = np.asarray(healpy.pix2vec(nside, np.arange(12 * nside**2)))
    mu = np.clip(x.T @ x, -1, 1)
    return sum((2 * l + 1) / (4 * np.pi) * c * scipy.special.eval_legendre(l, mu) for l, c in enumerate(cl))


def check_generate(ck, stack, k, ncorr, name, xp, nside=2):
    u = [1.0, 1.0, 2.0**-16, 2.0**-40][int(ck.rng.integers(4))]
    gls, covs = gls_of(stack, k, ck.rng, xp, cut=bool(ck.rng.integers(2)), unit=u**2, longer=int(ck.rng.choice([0, 0, 1, 2])))
    m = covs[0].shape[0]
    nl = max(int(g.shape[0]) for g in gls)
    fields = [glass.grf.Normal() for _ in range(m)]
    d = {"ncorr": ncorr, "C": covs, "lens": [int(g.shape[0]) for g in gls], "unit": u, "nside": nside, "backend": name}
    ck.traces += 1
    with ck.case("generate", d, timeout=120):
        zero, r = response(fields, gls, nside, ncorr, xp)
        ck.ok(len(zero) == m and all(z.shape == (12 * nside**2,) for z in zero), "number and size of maps", d)
        ck.ok(not any(np.any(z) for z in zero), "zero numbers give zero maps", d)
        for i, j in itertools.product(range(m), repeat=2):
            got = (r[:, i] / u).T @ (r[:, j] / u)
            exp = pix_cov([c[i, j] if abs(i - j) <= k else 0.0 for c in covs], nside)
            ck.ok(close(got, exp, rtol=1e-8, atol=1e-8), "pixel covariance of sampled fields",
                  lambda: {**d, "fields": (i, j), "max deviation": np.max(np.abs(got - exp))})
        # superposition, and the fields made from it
        z = ck.rng.normal(size=r.shape[0])
        maps = [x for x in glass.generate(fields, gls, nside, ncorr=ncorr, rng=Script(z=z))]
        ck.ok(all(nsname(x) == name for x in maps), "backend of maps", d)
        ck.ok(close(np.asarray([npa(x) for x in maps]) / u, np.einsum("t,tfp->fp", z, r) / u, atol=1e-8), "maps are linear in the numbers drawn", d)
        var = [u**2 * sum((2 * l + 1) / (4 * np.pi) * c[i, i] for l, c in enumerate(covs)) for i in range(m)]
        lam = [1.0, 0.5, 2.0, 3.0, 0.25][:m]
        logn = list(glass.generate([glass.grf.Lognormal(a) for a in lam], gls, nside, ncorr=ncorr, rng=Script(z=z)))
        ck.ok(all(close(npa(y) / u, a * np.expm1(npa(x) - v / 2) / u, rtol=1e-7, atol=1e-7)
                  for x, y, v, a in zip(maps, logn, var, lam)), "transformation applied to each field", d)
        mix = [glass.grf.Lognormal(2.0) if i % 2 else glass.grf.Normal() for i in range(m)]
        mixed = list(glass.generate(mix, gls, nside, ncorr=ncorr, rng=Script(z=z)))
        ck.ok(all(close(npa(y) / u, (2 * np.expm1(npa(x) - v / 2) if i % 2 else npa(x)) / u, rtol=1e-7, atol=1e-7)
                  for i, (x, y, v) in enumerate(zip(maps, mixed, var))), "each field has its own transformation", d)
        g = list(glass.generate_gaussian(gls, nside, ncorr=ncorr, rng=Script(z=z)))
        ck.ok(len(g) == m and all(same(a, b) for a, b in zip(g, maps)), "generate_gaussian", d)
        g = list(glass.generate_lognormal(gls, nside, 2.0, ncorr=ncorr, rng=Script(z=z)))
        ck.ok(len(g) == m and all(close(npa(b) / u, 2 * np.expm1(npa(x) - v / 2) / u, rtol=1e-7, atol=1e-7)
                                  for b, x, v in zip(g, maps, var)), "generate_lognormal", d)
        # prefix: later spectra and numbers do not matter
        for p in range(1, m):
            alt = list(gls)
            for q in range(p * (p + 1) // 2, len(alt)):
                alt[q] = mk(xp, [-1.0])
            if max(g_.shape[0] for g_ in alt[: p * (p + 1) // 2]) < nl:
                continue
            it = glass.generate(fields, alt, nside, ncorr=ncorr, rng=Script(z=z))
            got = [next(it) for _ in range(p)]
            ck.ok(all(close(npa(a) / u, npa(b) / u, atol=1e-12) for a, b in zip(got, maps)), "first fields do not depend on later ones", d)
            ck.raises(ValueError, "negative auto-spectrum refused when its field is reached", lambda: next(it), d)


def bulk(ck):
    """Sizes of real simulations: many multipoles, many fields, fine maps."""
    for t in range(4 if ck.quick else 12):
        name, xp = BACKENDS[[0, 2, 1][t % 3]]
        m, k, nell = [(12, 3, 1500), (25, 8, 70), (6, 5, 4000), (40, 1, 300)][t % 4]
        lf = ck.rng.uniform(-0.5, 0.5, (nell, m, m))
        band = np.subtract.outer(np.arange(m), np.arange(m))
        lf[:, (band < 0) | (band > k)] = 0
        lf[:, range(m), range(m)] = ck.rng.uniform(0.5, 2, (nell, m))
        c = lf @ lf.swapaxes(1, 2)
        d = {"k": k, "fields": m, "multipoles": nell, "backend": name}
        ck.traces += 1
        with ck.case("iternorm of many multipoles", d, timeout=200):
            f = np.zeros_like(c)
            for i, w in enumerate(glass.iternorm(mk(xp, r) for r in cov_rows(list(c), k))):
                for e in range(min(i, k) + 1):
                    f[:, i, i - e] = npa(w)[:, k - e]
            ck.ok(close(f @ f.swapaxes(1, 2), c), "iternorm reproduces the covariance", d)
    for m, nl, nside, ncorr in [(3, 12, 8, 1), (2, 4, 64, None), (2, 20, 2, 1), (9, 3, 2, 2), (13, 2, 1, None)] + ([] if ck.quick else [(2, 41, 16, 1), (2, 4, 256, 0), (12, 4, 4, None), (15, 3, 1, 3)]):
        lf = np.tril(ck.rng.uniform(-0.5, 0.5, (nl, m, m)))
        k = m - 1 if ncorr is None else ncorr
        lf[:, np.subtract.outer(np.arange(m), np.arange(m)) > k] = 0
        lf[:, range(m), range(m)] = ck.rng.uniform(0.5, 2, (nl, m))
        c = lf @ lf.swapaxes(1, 2)
        gls = [mk(NP, c[:, i, j]) for i in range(m) for j in range(i, -1, -1)]
        d = {"fields": m, "multipoles": nl, "nside": nside, "ncorr": ncorr}
        ck.traces += 1
        with ck.case("generate at the size of a simulation", d, timeout=300):
            pix = np.unique(np.r_[0, 12 * nside**2 - 1, ck.rng.integers(0, 12 * nside**2, 60)])
            fields = [glass.grf.Normal() for _ in range(m)]
            s = Script(z_default=0.0)
            list(glass.generate(fields, gls, nside, ncorr=ncorr, rng=s))
            r = np.empty((s.iz, m, len(pix)))
            for t in range(s.iz):
                z = np.zeros(s.iz)
                z[t] = 1.0
                r[t] = [npa(x)[pix] for x in glass.generate(fields, gls, nside, ncorr=ncorr, rng=Script(z=z))]
            x = np.asarray(healpy.pix2vec(nside, pix))
            mu = np.clip(x.T @ x, -1, 1)
            leg = np.stack([(2 * l + 1) / (4 * np.pi) * scipy.special.eval_legendre(l, mu) for l in range(nl)])
            for i, j in itertools.product(range(m), repeat=2):
                exp = np.einsum("l,lpq->pq", c[:, i, j], leg) if abs(i - j) <= k else 0 * mu
                ck.ok(close(r[:, i].T @ r[:, j], exp, rtol=1e-8, atol=1e-7), "pixel covariance of sampled fields",
                      lambda: {**d, "fields": (i, j), "max deviation": np.max(np.abs(r[:, i].T @ r[:, j] - exp))})


def fine(ck):
    """Nearly degenerate fields keep their own part; at the poles only the real modes (m = 0) of high multipoles count."""
    for t, dl in enumerate([1e-6, 1e-9, 1e-11]):
        name, xp = BACKENDS[t % 3]
        with ck.case("iternorm, nearly degenerate", {"independent part": dl, "backend": name}):
            c = math.sqrt(1 - dl)
            for k, rows in ((1, [[1.0, 0.0], [1.0, c], [1.0, 0.0], [4.0, 2 * c]]), (2, [[1.0, 0, 0], [4.0, 2 * c, 0], [1.0, c, 0.5]][:2])):
                w = [npa(r) for r in glass.iternorm([mk(xp, r) for r in rows])]
                own = [v[..., -1] ** 2 for v in w]
                exp = [1, dl, 1, 4 * dl] if k == 1 else [1, 4 * dl]
                ck.ok(close(own, exp, rtol=1e-3), "weights give the covariance back", {"rows": rows, "got": w, "backend": name})
    n, nside, num = 90, 128, 500 if ck.quick else 3000
    gl = np.r_[np.zeros(70), 1 / (2 * np.arange(70, n) + 1)]
    d = {"multipoles": n, "nside": nside}
    ck.traces += 1
    with ck.case("variance at the poles", d, timeout=300):
        s = Script(z_default=0.0)
        s._take = lambda kind, sh: ck.rng.normal(size=sh)
        v = np.array([npa(next(iter(glass.generate([glass.grf.Normal()], [gl], nside, rng=s))))[[0, 1, 2, 3, -1, -2, -3, -4]] for _ in range(num)])
        var = float((v**2).mean())
        ck.ok(0.75 < var / (20 / 4 / np.pi) < 1.3, "pixel covariance of sampled fields", {**d, "variance": var, "expected": 20 / 4 / np.pi})


def run(ck):
    big = not ck.quick
    runs = {}
    cfgs = [(1, 1, "{0, 1, 2, 3}", "{-1, 0, 1}", "{1, 3}"),
            (3, 2, "{0, 1, 2}", "{-1, 0, 2}", "{1, 4}"),
            (4, 1, "{0, 1, 2}", "{-1, 0, 1}", "{1}"),
            (4, 2, "{0, 1}", "{-1, 1}", "{1}"),
            (4, 0, "{0, 1, 2}", "{0}", "{1}"),
            (5, 3, "{1}", "{-1, 1}", "{}")]
    if big:
        cfgs += [(4, 3, "{0, 1}", "{-1, 0, 1}", "{1}"), (5, 2, "{0, 1}", "{-1, 1}", "{1}"), (5, 1, "{0, 1, 2}", "{-1, 0, 1}", "{1}"),
                 (3, 2, "{0, 1, 2, 4}", "{-2, -1, 0, 1, 3}", "{1, 2}"), (6, 2, "{1}", "{-1, 1}", "{}")]
    for c in cfgs:
        n, k, dg, off, bad = c
        runs[c] = ck.tlc_bg("Sampler", {"N": n, "K": k, "Diag": dg, "Off": off, "BadBy": bad},
                            invariants=["Reproduced", "Banded", "Verdict", "Window", "Emit"], properties=["Prefix"],
                            name=f"Sampler-{n}-{k}", workers=2)
    sch = ck.tlc_bg("Interleave", {"Lengths": "<<3, 2, 2>>"}, invariants=["Alone", "Emit"])

    for c, fut in runs.items():
        n, k = c[0], c[1]
        recs = fut.result()
        good = [r for r in recs if r["status"] == "ok"]
        bad = [r for r in recs if r["status"] != "ok"]
        ck.rng.shuffle(good)
        ck.rng.shuffle(bad)
        lim = 1200 if ck.quick else 6000
        good, bad = good[:lim], bad[: lim // 3]
        ck.sample(good[0])
        # every accepted behaviour, stacked in different ways over multipoles
        i, m = 0, 0
        shapes = [(4,), (2, 3), (1,), (), (7,), (3, 1, 2)]
        while i < len(good):
            shape = shapes[m % len(shapes)]
            s = int(np.prod(shape, dtype=int))
            if i + s > len(good):
                shape, s = (1,), 1
            name, xp = BACKENDS[[0, 2, 0, 1, 0, 2, 0][m % 7] if m < 210 else [0, 2][m % 2]]
            check_iternorm(ck, good[i : i + s], k, name, xp, shape, None)
            i, m = i + s, m + 1
        for m, b in enumerate(bad):
            r = len(b["C"]) - 1
            mates = [g for g in good[:40]][: m % 3]
            stack = [*mates, b] if m % 2 else [b, *mates]
            name, xp = BACKENDS[[0, 2, 0, 2, 1][m % 5] if m < 50 else [0, 2][m % 2]]
            check_iternorm(ck, stack, k, name, xp, (len(stack),), r)
        # maps
        num = 10 if ck.quick else 40
        for m in range(min(num, len(good))):
            nell = [3, 2, 4, 1][m % 4]
            stack = [good[int(q)] for q in ck.rng.integers(0, len(good), nell)]
            name, xp = BACKENDS[[0, 0, 2, 0, 0][m % 5]]
            ncorr = k if k < n - 1 or m % 2 else (None if m % 4 else n + 3)
            if all(np.all(full(s) == 0) for s in stack) and nell < 2:
                continue
            check_generate(ck, stack, k, ncorr, name, xp)
        # more multipoles than the resolution of the maps
        for m in range(2 if ck.quick else 8):
            stack = [good[int(q)] for q in ck.rng.integers(0, len(good), 5 + m % 3)]
            check_generate(ck, stack, k, k, *BACKENDS[[0, 2][m % 2]], nside=1)
        # one on jax
        check_generate(ck, [good[0], good[-1]], k, k, *BACKENDS[1], nside=1)
        # covariance rows
        for m in range(30):
            stack = [good[int(q)] for q in ck.rng.integers(0, len(good), 3)]
            for name, xp in BACKENDS:
                if xp is JX and m > 3:
                    continue
                gls, covs = gls_of(stack, k, ck.rng, xp)
                nc = int(ck.rng.integers(0, n + 2))
                nl = 3 + int(ck.rng.integers(0, 3))
                with ck.case("cls2cov", {"C": covs, "nc": nc}):
                    rows = [npa(r).copy() for r in glass.cls2cov(gls, nl, n, nc)]
                    exp = cov_rows(covs, nc)
                    ck.ok(len(rows) == n and all(close(2 * r[:3], e) and not np.any(r[3:]) and r.shape == (nl, nc + 1)
                                                 for r, e in zip(rows, exp)), "cls2cov rows are half the spectra",
                          {"C": covs, "nc": nc, "got": rows, "backend": name})
                # a negative number anywhere in an auto-spectrum
                f = int(ck.rng.integers(n))
                a = np.concatenate([np.abs(npa(gls[f * (f + 1) // 2])), np.zeros(2)])[:3]
                a[int(ck.rng.integers(a.size))] = -(10.0 ** ck.rng.integers(-12, 2))
                alt = [*gls]
                alt[f * (f + 1) // 2] = mk(xp, a)
                with ck.case("cls2cov", {"C": covs, "nc": nc, "negative": f}):
                    it = glass.cls2cov(alt, nl, n, nc)
                    for r, e in zip(range(f), exp):
                        ck.ok(close(2 * npa(next(it))[:3], e), "cls2cov rows are half the spectra", {"C": covs, "nc": nc, "backend": name})
                    ck.raises(ValueError, "negative auto-spectrum refused when its field is reached", lambda: next(it), {"gls": alt, "field": f, "backend": name})

    fine(ck)
    # generators advanced in every order
    n = 3
    def make(g):
        a = np.random.default_rng(g)
        gl = [mk(NP, v) for v in ([4., 2, 1], [3., 2, 1], [1., 1, .5], [5., 4, 3], [1., .5, 0], [.5, 0, .25])]
        f = [glass.grf.Normal(), glass.grf.Lognormal(0.5), glass.grf.Normal()]
        m = [3, 2, 2][g]
        return glass.generate(f[:m], gl[: m * (m + 1) // 2], 2, ncorr=[None, 1, 0][g], rng=a)
    alone = [[npa(x).copy() for x in make(g)] for g in range(3)]
    for rec in sch.result():
        ck.traces += 1
        with ck.case("interleaved generators", rec["sched"]):
            gens = [make(g) for g in range(3)]
            pos = [0, 0, 0]
            kept = []
            for g in rec["sched"]:
                x = next(gens[g - 1])
                kept.append((g - 1, pos[g - 1], x))
                pos[g - 1] += 1
            ck.ok(all(same(x, alone[g][p]) for g, p, x in kept), "interleaving does not change what is yielded", rec["sched"])

    # long sequences, judged by TLC
    ev = []
    for t in range(30 if ck.quick else 150):
        k = int(ck.rng.integers(0, 6))
        m = int(ck.rng.integers(k + 1, 14))
        lf = np.zeros((m, m))
        for i in range(m):
            for j in range(max(0, i - k), i):
                lf[i, j] = ck.rng.integers(-2, 3)
            lf[i, i] = ck.rng.choice([1, 2, 4, 1, 0] if t % 2 else [1, 2])
        for j in range(m):
            if lf[j, j] == 0:
                lf[j + 1 :, j] = 0
        c = lf @ lf.T
        name, xp = BACKENDS[[0, 2, 0, 2, 1][t % 5]]
        ev.append({"op": "start", "k": k})
        with ck.case("iternorm, long sequence", {"C": c, "k": k, "backend": name}):
            for i, w in enumerate(glass.iternorm(mk(xp, r) for r in cov_rows([c], k))):
                cc = [[int(c[i, i - d]), 1] if d <= i else [0, 1] for d in range(k, -1, -1)]
                ev.append({"op": "row", "c": cc, "w": [snap(v, 64) for v in npa(w)[0]]})
    ck.validate("SamplerTrace", ev)

    bulk(ck)
    # refusals
    for name, xp in BACKENDS:
        g1 = [mk(xp, [1.0, 1.0])]
        gen = lambda fields, gls, **kw: list(glass.generate(fields, gls, 1, **kw))
        N = glass.grf.Normal
        ck.raises(ValueError, "number of fields must match", lambda: gen([N(), N()], g1), name)
        ck.raises(ValueError, "number of fields must match", lambda: gen([N()], g1 * 3), name)
        ck.raises(ValueError, "empty spectra are refused", lambda: gen([N()], [mk(xp, [])]), name)
        ck.raises(ValueError, "empty spectra are refused", lambda: gen([N(), N()], [mk(xp, [])] * 3), name)
        ck.raises(ValueError, "negative auto-spectrum", lambda: gen([N()], [mk(xp, [1.0, -1.0])]), name)
        ck.raises(ValueError, "negative auto-spectrum", lambda: gen([N()] * 2, [mk(xp, [1.0, 1.0]), mk(xp, [1.0, -1e-3]), mk(xp, [])]), name)
        ck.raises(ValueError, "indefinite spectra", lambda: gen([N()] * 2, [mk(xp, [1.0, 1.0]), mk(xp, [1.0, 1.0]), mk(xp, [0.0, 1.5])]), name)
        ck.raises(ValueError, "indefinite spectra", lambda: gen([N()] * 2, [mk(xp, [1.0, 1.0]), mk(xp, [1.0, 1.0]), mk(xp, [-1.5, 0.0])]), name)
        ck.raises(ValueError, "rows of different shape", lambda: list(glass.iternorm(iter([mk(xp, np.ones((2, 2))), mk(xp, np.ones((3, 2)))]))), name)
        ck.raises(ValueError, "rows of different shape", lambda: list(glass.iternorm(iter([mk(xp, np.ones((2, 1, 2))), mk(xp, np.ones((2, 2, 2)))]))), name)
        ck.raises(ValueError, "empty rows", lambda: list(glass.iternorm(iter([mk(xp, np.ones((2, 0)))]))), name)


main("C03", run)
