"""C04: positions from density maps (Batches.tla, BatchesTrace.tla, Populations.tla)."""
import healpix
from vf import *  # noqa: F403

A2 = 60**6 // 100 / math.pi


def runs_of(pix):
    out = []
    for p in pix:
        if out and out[-1][0] == int(p):
            out[-1][1] += 1
        else:
            out.append([int(p), 1])
    return out


OFFSETS = np.random.default_rng(4)


def inpixel(n):
    """Offsets inside the pixels, some of them next to its edges."""
    u = OFFSETS.random(n)
    e = OFFSETS.random(n) < 0.05
    return np.where(e, np.where(u < 0.5, 1e-9, 1 - 1e-9), u)


def record(ck, ev, counts, batch, name, xp, dims, **kw):
    """Sample populations with the given counts (pops, npix); expected counts carry the counts."""
    counts = np.asarray(counts)
    npix = counts.shape[-1]
    nside = math.isqrt(npix // 12)
    d = {"npix": npix, "batch": batch, "dims": dims, "backend": name,
         "counts": [[(int(p), int(c[p])) for p in np.nonzero(c)[0][:50]] for c in counts.reshape(-1, npix)]}
    ck.traces += 1
    delta = (counts - 1.0).reshape(*dims, npix)
    rng = Script(poisson=lambda lam: np.rint(lam).astype(np.int64), u_default=inpixel)
    ngal = npix / A2
    if dims:
        ngal = mk(xp, np.full(dims[-1:], ngal))
    local = [{"op": "start", "pops": [[[int(p), int(c[p])] for p in np.nonzero(c)[0]] for c in counts.reshape(-1, npix)],
              "batch": min(batch, 2**30)}]
    with ck.case("positions_from_delta", d, timeout=120):
        for lon, lat, cnt in glass.positions_from_delta(ngal, mk(xp, delta), batch=batch, rng=rng, **kw):
            lo, la, c = npa(lon), npa(lat), npa(cnt)
            valid = lo.shape == la.shape and lo.ndim == 1 and bool(np.all(np.isfinite(lo)) and np.all(np.abs(la) <= 90))
            valid = valid and c.shape == tuple(dims) and (not lo.size or nsname(lon) == nsname(lat) == name)
            pix = healpix.ang2pix(nside, lo, la, lonlat=True) if lo.size else []
            c = c.ravel()
            nz = np.nonzero(c)[0]
            pop = int(nz[0]) if nz.size else 0
            local.append({"op": "batch", "runs": runs_of(pix), "total": len(pix), "pop": pop + 1,
                          "reported": int(c[pop]) if c.size else 0, "others": int(c.sum() - c[pop]), "valid": valid})
            if len(local) > 20000:
                raise RuntimeError("too many batches")
        local.append({"op": "end"})
        ev.extend(local)


def populations(ck, rec, name, xp, which):
    P = 4
    nside = which
    npix = 12 * nside**2
    s = [tuple(x) for x in rec["s"]]
    tile = lambda rows, shape: np.tile(np.asarray(qf(rows, 2), float), (1, npix // P)).reshape(*shape, npix)
    ngal = np.asarray(qf(rec["ngal"], 1)).reshape(s[0]) * npix / A2
    bias = np.asarray(qf(rec["bias"], 1)).reshape(s[2])
    exp = np.tile(np.asarray(qf(rec["lam"], 2)), (1, npix // P))
    d = {k: rec[k] for k in ("s", "model", "mono", "vis", "dims")} | {"backend": name}
    ck.traces += 1
    for mode in ("lam", "counts"):
        rng = Script(poisson=(lambda lam: np.zeros(lam.shape, np.int64)) if mode == "lam"
                     else (lambda lam: np.floor(432 * lam + 0.5).astype(np.int64) % 5), u_default=inpixel)
        kw = {"rng": rng, "remove_monopole": rec["mono"]}
        if rec["model"] != "none":
            kw["bias"] = mk(xp, bias) if s[2] or rec["mono"] else float(bias)
        if rec["model"] == "loglinear":
            kw["bias_model"] = glass.loglinear_bias
        if rec["vis"]:
            kw["vis"] = mk(xp, tile(rec["visv"], s[3]))
        args = (mk(xp, ngal) if s[0] or rec["vis"] else float(ngal), mk(xp, tile(rec["delta"], s[1])))
        keep = [npa(a).copy() for a in args]
        with ck.case("positions_from_delta", d):
            got = list(glass.positions_from_delta(*args, **kw))
            lam = np.concatenate([npa(x[1]).ravel() for x in rng.log if x[0] == "poisson"])
            ck.ok(close(lam, exp.ravel(), rtol=1e-9, atol=1e-12), "expected counts of every population and pixel",
                  lambda: {**d, "got": lam.reshape(exp.shape), "expected": exp})
            ck.ok(all(same(a, b) for a, b in zip(args, keep)), "arguments are unchanged", d)
            if mode == "lam":
                ck.ok(not got, "no points, no batches", d)
                continue
            dims = tuple(rec["dims"])
            tot = np.zeros(exp.shape, int)
            rep = np.zeros(dims, int)
            k = 0
            want = np.floor(432 * exp + 0.5).astype(int) % 5
            last = -1
            for lon, lat, cnt in got:
                c = npa(cnt)
                rep = rep + c
                nz = np.nonzero(c.ravel())[0]
                if not ck.ok(c.shape == dims and len(nz) <= 1, "count reported in one entry", d):
                    return
                if len(nz):
                    pix = healpix.ang2pix(nside, npa(lon), npa(lat), lonlat=True)
                    np.add.at(tot[nz[0]], pix, 1)
                    ck.ok(nz[0] >= last and c.ravel()[nz[0]] == len(pix), "populations in order with their counts", d)
                    last = nz[0]
            ck.ok(np.array_equal(tot, want), "points per population and pixel", lambda: {**d, "got": tot, "expected": want})
            ck.ok(np.array_equal(npa(rep).ravel(), want.sum(-1)), "reported counts add up", d)


def bulk(ck):
    """Maps of real simulations: expected counts and points, pixel by pixel, by the formulas of Populations.tla."""
    for t, nside in enumerate([128] if ck.quick else [128, 256, 64]):
        npix = 12 * nside**2
        name, xp = BACKENDS[[0, 2][t % 2]]
        delta, vis = ck.rng.normal(0, 0.4, npix), ck.rng.uniform(0, 1, npix)
        det = {"nside": nside, "backend": name}
        ck.traces += 1
        for bias, mono in ((0.8, True), (1.3, False)):
            exp = bias * delta
            exp = exp - exp.mean() if mono else exp
            exp = np.clip(1 + exp, 0, None) * vis * 0.4
            want = np.floor(exp + 0.7).astype(np.int64)
            rng = Script(poisson=lambda lam: np.floor(lam + 0.7).astype(np.int64), u_default=inpixel)
            tot = np.zeros(npix, np.int64)
            with ck.case("positions of a fine map", det, timeout=300):
                for lon, lat, _ in glass.positions_from_delta(0.4 * npix / A2, mk(xp, delta), bias, mk(xp, vis), remove_monopole=mono, rng=rng, batch=40_000):
                    tot += np.bincount(healpix.ang2pix(nside, npa(lon), npa(lat), lonlat=True), minlength=npix)
                lam = np.concatenate([npa(x[1]).ravel() for x in rng.log if x[0] == "poisson"])
                ck.ok(close(lam, exp, rtol=1e-9, atol=1e-12), "expected counts of every population and pixel", {**det, "monopole": mono})
                bad = np.abs(exp + 0.7 - np.rint(exp + 0.7)) > 1e-6
                ck.ok(bool(np.all(tot[bad] == want[bad])), "points per population and pixel", {**det, "monopole": mono})


def heavy(ck):
    """Pixels with very many points, and bias models that hand back the map itself."""
    for t in range(8):
        name, xp = BACKENDS[[0, 2][t % 2]]
        dims = [(), (2,)][t // 2 % 2]
        delta = ck.rng.integers(-1, 4, (*dims, 48)).astype(float)
        if t >= 4:
            delta -= delta.mean(-1, keepdims=True)
        det = {"delta": delta, "backend": name, "remove_monopole": t >= 4}
        with ck.case("models that return the map", det):
            a, seen = mk(xp, delta), []
            rng = Script(poisson=lambda lam: seen.append(np.maximum(npa(lam), 0)) or np.zeros(np.shape(lam), np.int64), u_default=inpixel)  # noqa: B023
            list(glass.positions_from_delta(48 / A2, a, 1.0, bias_model=lambda d, b: d, remove_monopole=t >= 4, rng=rng))
            ck.ok(same(a, delta), "maps are left alone", det)
            ck.ok(close(np.concatenate([np.ravel(s) for s in seen]), np.maximum(np.ravel(delta) + 1, 0), rtol=1e-9, atol=1e-9), "expected number of points in every pixel", {**det, "got": seen})
    for t, (nside, peak) in enumerate([(1, 70_000), (2, 40_000), (1, 1_000_003)]):
        npix = 12 * nside**2
        name, xp = BACKENDS[[0, 2][t % 2]]
        cnt = ck.rng.integers(0, 3, npix)
        cnt[int(ck.rng.integers(npix))] = peak
        det = {"nside": nside, "counts": cnt, "backend": name}
        ck.traces += 1
        with ck.case("heavy pixels", det, timeout=300):
            tot, rep = np.zeros(npix, np.int64), 0
            rng = Script(poisson=lambda lam: np.rint(lam).astype(np.int64), u_default=inpixel)
            for lon, lat, c in glass.positions_from_delta(npix / A2, mk(xp, cnt - 1.0), rng=rng, batch=[1_000_000, 1000][t % 2]):
                tot += np.bincount(healpix.ang2pix(nside, npa(lon), npa(lat), lonlat=True), minlength=npix)
                rep += int(c)
            ck.ok(np.array_equal(tot, cnt) and rep == cnt.sum(), "points per population and pixel", lambda: {**det, "got": tot, "reported": rep})  # noqa: B023


def run(ck):
    q = ck.quick
    b = ck.tlc_bg("Batches", {"P": 5 if q else 6, "Counts": "{0, 1, 2, 4}" if q else "{0, 1, 2, 4}", "Groups": "{1, 2, 3}" if q else "{1, 2, 3, 4}",
                              "Sizes": "{1, 2, 3, 5, 100}" if q else "{1, 2, 3, 4, 5, 7, 100}"},
                  invariants=["Contiguous", "Bounded", "InRange", "Emit"], properties=["Done"])
    shapes = "{<<>>, <<1>>, <<2>>, <<3>>, <<2, 1>>, <<2, 3>>, <<1, 2, 1>>}"
    po = ck.tlc_bg("Populations", {"Shapes": shapes, "P": 4, "Models": '{"none", "linear", "loglinear"}'},
                   invariants=["NonNeg", "MeanDensity", "Emit"])
    ev = []
    recs = b.result()
    ck.rng.shuffle(recs)
    ck.sample(recs[0])
    lim = 1200 if q else 8000
    G = 1000
    for m, r in enumerate(recs[:lim]):
        n, g, B = r["n"], r["grp"], r["bat"]
        name, xp = BACKENDS[[0, 2][m % 2]] if m % 100 or m > 900 else BACKENDS[1]
        style = m % 4
        if style == 0:        # the pattern itself, on the smallest map
            cnt = np.zeros(12, int)
            off = int(ck.rng.integers(0, 8)) if len(n) == 5 else int(ck.rng.integers(0, 7))
            cnt[off : off + len(n)] = n
        else:                 # placed so that groups of the pattern are groups of the code
            cnt = np.zeros(12 * 16**2, int)
            inner = np.linspace(0, G - 1, g).astype(int) if g > 1 else np.array([int(ck.rng.integers(0, 2)) * (G - 1)])
            if style == 2:
                inner = np.minimum(np.arange(g), G - 1)
            if style == 3:
                inner = G - 1 - np.arange(g)[::-1]
            for i, c in enumerate(n):
                p = (i // g) * G + inner[i % g]
                if p < cnt.size:
                    cnt[p] = c
                else:
                    cnt[cnt.size - 1 - (i % 3)] = c
        record(ck, ev, [cnt], 10**6 if B == 100 else B, name, xp, ())
    # random counts: dense maps, large counts, several populations, batch sizes around totals and group sums
    for m in range(60 if q else 400):
        nside = [1, 2, 8, 16, 32][m % 5]
        npix = 12 * nside**2
        dims = [(), (2,), (1,), (2, 2), (3, 1)][int(ck.rng.integers(5))] if nside < 16 else ()
        npop = int(np.prod(dims, dtype=int))
        rate = float(ck.rng.choice([0.002, 0.1, 0.5, 1.5]))
        cnt = ck.rng.poisson(rate, (npop, npix))
        if m % 3 == 0:
            cnt[:, ck.rng.integers(0, npix, 2)] += int(ck.rng.integers(1, 60))
        if npop > 1 and m % 2:
            cnt[int(ck.rng.integers(npop))] = 0
        tot = max(1, int(cnt.sum(-1).max()))
        for B in {1 if npix <= 192 else tot // 3 + 1, max(1, tot - 1), tot, tot + 1, max(1, tot // 2), max(1, int(cnt[0, :1000].sum()))}:
            name, xp = BACKENDS[[0, 2][m % 2]]
            record(ck, ev, cnt, B, name, xp, dims)
    cut = [i for i, e in enumerate(ev) if e["op"] == "start"] + [len(ev)]
    chunk, futs = 0, []
    for a, z in zip(cut[:-1], cut[1:]):
        if z - chunk > 15000 or z == len(ev):
            futs.append(ev[chunk:z])
            chunk = z
    for f in futs:
        ck.validate("BatchesTrace", f)
    ck.sample(ev[1])

    bulk(ck)
    heavy(ck)
    recs = po.result()
    ck.rng.shuffle(recs)
    for m, r in enumerate(recs[: 900 if q else 6000]):
        name, xp = BACKENDS[[0, 2][m % 2]] if m % 90 or m > 900 else BACKENDS[1]
        populations(ck, r, name, xp, 16 if m % 45 == 44 else 1 + m % 2)
    ck.sample({k: recs[0][k] for k in ("s", "model", "mono", "vis", "lam")})
    ck.raises(TypeError, "a bias model that cannot be called is refused",
              lambda: list(glass.positions_from_delta(1.0, NP.zeros(12), bias=1.0, bias_model=0)))


main("C04", run)
