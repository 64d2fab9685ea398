"""C05: uniform positions (Uniform.tla, UniformTrace.tla)."""
from vf import *  # noqa: F403

A2 = 60**6 // 100 / math.pi


def origin(vals, u):
    """Position in the stream (1-based) of the number each value equals, up to reflection; 0 if none."""
    out = []
    both = np.concatenate([u, 1 - u])
    o = np.argsort(both)
    srt = both[o]
    for v in vals:
        i = np.searchsorted(srt, v)
        best = 0
        for c in (i - 1, i):
            if 0 <= c < len(srt) and abs(srt[c] - v) < 1e-10:
                best = int(o[c]) % len(u) + 1
        out.append(best)
    return out


def record(ck, ev, shape, n, name, xp, how, u=None):
    n = [int(v) for v in n]
    tot = 2 * sum(n)
    edge = u is not None
    u = ck.rng.permutation((np.arange(tot) + ck.rng.uniform(0.05, 0.45, tot)) / max(tot, 1) * 0.999) if u is None else np.asarray(u)
    dens = (np.asarray(n) + ck.rng.uniform(-0.3, 0.3, len(n))).reshape(shape) / A2
    lam = []
    cnt = np.asarray(n).reshape(shape)

    def poisson(x):
        lam.append(x.copy())
        return np.rint(x).astype(np.int64) if shape else np.int64(round(float(x)))
    rng = Script(u=u, poisson=poisson)
    arg = float(dens) if how == "float" else mk(xp, dens)
    kw = {"xp": xp} if how == "float" or how == "xp" else {}
    d = {"shape": shape, "n": n, "backend": name, "how": how}
    local = [{"op": "start", "n": n}]
    ck.traces += 1
    with ck.case("uniform_positions", d):
        got = list(glass.uniform_positions(arg, rng=rng, **kw))
        ck.ok(close(np.concatenate([x.ravel() for x in lam]), (dens * 4 * math.pi * (10800 / math.pi) ** 2).ravel()),
              "expected number is density times sphere", lambda: {**d, "got": lam})
        for lon, lat, c in got:
            lo, la = npa(lon), npa(lat)
            ck.ok(lo.ndim == la.ndim == 1 and nsname(lon) == name and nsname(lat) == name, "shape and backend of positions", d)
            ck.ok(not lo.size or (np.all(np.abs(la) <= 90) and np.ptp(lo) <= 360 and np.all(np.abs(lo) <= 360)), "positions on the sphere", d)
            if shape:
                ck.ok(tuple(c.shape) == tuple(shape), "shape of counts", d)
            else:
                ck.ok(isinstance(c, int), "integer count for one population", d)
            ul = ((lo + 180) / 360) % 1.0
            ut = (np.sin(np.radians(la)) + 1) / 2
            if edge:
                continue
            local.append({"op": "batch", "count": [int(v) for v in npa(c).ravel()], "lon": origin(ul, u), "lat": origin(ut, u)})
        local.append({"op": "end"})
        if not edge:
            ev.extend(local)
        else:
            ck.ok(len(got) == len(n) and [int(npa(x[2]).sum()) for x in got] == n, "counts at extreme numbers", d)


def bulk(ck):
    """Realistic numbers of positions."""
    for t, n in enumerate([[70_001], [5, 0, 131_072, 1], [1000] * 12, [1_200_000]] + ([] if ck.quick else [[3_000_001, 4], [65_537] * 3, [10] * 300])):
        name, xp = BACKENDS[[0, 2, 1, 0][t % 4]]
        tot = sum(n)
        u = ck.rng.uniform(size=2 * tot)
        shape = () if len(n) == 1 else (len(n),)
        det = {"numbers": n[:4], "backend": name}
        ck.traces += 1
        with ck.case("many uniform positions", det, timeout=200):
            got = list(glass.uniform_positions(mk(xp, np.reshape(np.array(n) / A2, shape)), rng=Script(u=u, poisson=lambda x: np.rint(x).astype(np.int64))))
            sums = np.sum([npa(c).reshape(-1) for _, _, c in got], axis=0)
            ck.ok([int(v) for v in sums] == n, "counts of many positions", lambda: {**det, "got": sums})
            ck.ok(all(len(npa(a)) == len(npa(b)) == int(npa(c).sum()) for a, b, c in got), "as many positions as reported", det)
            ul = np.concatenate([((npa(a) + 180) / 360) % 1.0 for a, _, _ in got])
            ut = np.concatenate([(np.sin(np.radians(npa(b))) + 1) / 2 for _, b, _ in got])
            ck.ok(close(np.sort(np.minimum(np.r_[ul, ut], 1 - np.r_[ul, ut])), np.sort(np.minimum(u, 1 - u)), rtol=1e-9, atol=1e-9), "every number is one coordinate of one position", det)


def run(ck):
    q = ck.quick
    recs = ck.tlc("Uniform", {"Shapes": "{<<>>, <<1>>, <<2>>, <<3>>, <<2, 2>>, <<1, 3>>, <<3, 1, 1>>, <<2, 1, 2>>, <<0>>, <<2, 0>>}",
                              "Counts": "{0, 1, 3}" if q else "{0, 1, 2, 5}"},
                  invariants=["Fresh", "Exact", "Reported", "Emit"], properties=["Finishes"])
    ck.sample(recs[len(recs) // 2])
    ev = []
    for m, r in enumerate(recs):
        for name, xp in BACKENDS:
            if xp is JX and m % 12:
                continue
            shape = tuple(r["shape"])
            n = np.asarray(r["n"], float)
            record(ck, ev, shape, n, name, xp, "array")
            if not shape:
                record(ck, ev, shape, n, name, xp, "float")
            elif m % 3 == 0:
                record(ck, ev, shape, n, name, xp, "xp")
    for m in range(20 if q else 100):
        shape = [(), (4,), (3, 2), (2, 1, 3), (1,)][m % 5]
        n = ck.rng.poisson([3, 40, 300][m % 3], int(np.prod(shape, dtype=int)))
        n[ck.rng.integers(0, n.size)] *= int(ck.rng.integers(0, 2))
        record(ck, ev, shape, n, *BACKENDS[[0, 2, 0, 1][m % 4]], "array")
    # the ends of the range of the random numbers
    for name, xp in BACKENDS:
        record(ck, ev, (2,), [2, 1], name, xp, "array", u=[0.0, 1 - 2**-53, 0.0, 1 - 2**-53, 0.5, 0.5])
    ck.validate("UniformTrace", ev)
    bulk(ck)


main("C05", run)
