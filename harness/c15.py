"""C15: redshift sampling (Redshifts.tla, Segments.tla, BinsTrace.tla)."""
import warnings

from vf import *  # noqa: F403

UD = 24
US = [a / UD for a in range(1, UD)]


def single(ck, r, name, xp, m):
    z, f = mk(xp, r["z"]), mk(xp, r["f"])
    lo, hi = np.asarray(qf(r["lo"], 1)), np.asarray(qf(r["hi"], 1))
    u = np.asarray(US)
    d = {"z": r["z"], "nz": r["f"], "backend": name}
    o = ck.rng.permutation(len(u))
    scale = [1.0, 0.25, 3e-5][m % 3]

    def judge(got, clause):
        g = npa(got)
        if not ck.ok(g.shape == u.shape and nsname(got) == name, clause + ": shape", d):
            return
        g = g / scale
        ck.ok(bool(np.all((g >= lo[o] - 1e-9) & (g <= hi[o] + 1e-9))), clause,
              lambda: {**d, "u": u[o], "got": g, "lo": lo[o], "hi": hi[o]})
    ck.traces += 1
    with ck.case("redshifts_from_nz", d):
        judge(glass.redshifts_from_nz(len(u), z * scale, f * 7, rng=Script(u=u[o]), warn=False), "redshifts_from_nz inverts the cumulative distribution")
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            judge(glass.redshifts_from_nz(mk(xp, len(u), int), z * scale, f, rng=Script(u=u[o])), "redshifts_from_nz inverts the cumulative distribution")
        ck.ok(any("redshifts" in str(x.message) for x in w), "redshifts_from_nz warns by default", d)
    with ck.case("redshifts", d):
        win = glass.RadialWindow(z * scale, f)
        judge(glass.redshifts(len(u), win, rng=Script(u=u[o])), "redshifts follow the window")
    if m % 4 == 0:
        with ck.case("redshifts_from_bins", d):
            b = mk(xp, np.full(len(u), 3), int)
            g = npa(glass.redshifts_from_bins(b, z * scale, {1: f * 0 + 1.0, 3: f}, rng=Script(u=u)))
            g = np.sort(g / scale)
            ck.ok(bool(np.all((g >= lo - 1e-9) & (g <= hi + 1e-9))), "redshifts_from_bins inverts the cumulative distribution", lambda: {**d, "got": g})


def inv(z, f, u):
    cum = np.concatenate([[0], np.cumsum((f[1:] + f[:-1]) / 2 * np.diff(z))])
    return np.interp(u, cum / cum[-1], z)


def arrays(ck, r, name, xp):
    s = [tuple(x) for x in r["s"]]
    NZ = 4
    nzrows = int(np.prod(s[2], dtype=int))
    zrows = int(np.prod(s[1], dtype=int))
    z = np.stack([np.array([0.0, 1.0, 2.5, 3.0]) * (i + 1) + 10 * i for i in range(zrows)])
    f = np.stack([np.array([1.0, 2 + i % 3, 1 + (i * 7) % 4, 2.0 + i]) for i in range(nzrows)])
    cnt = np.asarray(r["cnt"], int).reshape(s[0])
    u = ck.rng.uniform(0.01, 0.99, r["total"])
    d = {"shapes": s, "counts": cnt, "backend": name}
    ck.traces += 1
    with ck.case("redshifts_from_nz for arrays", d):
        count = int(cnt) if not s[0] and ck.rng.integers(2) else mk(xp, cnt, int)
        rng = Script(u=u)
        got = glass.redshifts_from_nz(count, mk(xp, z.reshape(*s[1], NZ)), mk(xp, f.reshape(*s[2], NZ)), rng=rng, warn=False)
        exp = np.concatenate([inv(z[g["par"][0]], f[g["par"][1]], u[g["from"] : g["from"] + g["count"]]) for g in r["seg"]] or [np.zeros(0)])
        ck.ok(close(got, exp) and nsname(got) == name, "segments of redshifts for arrays of counts and distributions",
              lambda: {**d, "got": got, "expected": exp})


def bins(ck, ev, shape, labels, name, xp, keep_all, kind):
    n = int(np.prod(shape, dtype=int))
    z = np.linspace(0, 3 * len(labels), 3 * len(labels) + 1)
    pos = {}
    nz = {}
    order = list(ck.rng.permutation(len(labels)))
    for q in order:
        f = np.zeros(len(z))
        f[3 * q + 1 : 3 * q + 3] = [1.0, 2.0 + q % 3]
        nz[labels[q]] = mk(xp, f)
        pos[q] = f
    if kind == "few":
        use = np.sort(ck.rng.permutation(len(labels))[: max(1, len(labels) // 2)])
        a = use[ck.rng.integers(0, len(use), n)] if n else np.zeros(0, int)
    elif kind == "sorted":
        a = np.sort(ck.rng.integers(0, len(labels), n))
    elif kind == "reversed":
        a = np.sort(ck.rng.integers(0, len(labels), n))[::-1]
    else:
        a = ck.rng.integers(0, len(labels), n)
    lab = np.asarray([labels[i] for i in a], dtype=np.asarray(labels).dtype).reshape(shape)
    u = ck.rng.permutation((np.arange(n) + 0.5) / max(n, 1))
    d = {"shape": shape, "labels": lab, "dict": list(nz), "backend": name}
    ck.traces += 1
    with ck.case("redshifts_from_bins", d):
        arg = mk(xp, lab, lab.dtype)
        if xp is NP and n and ck.rng.integers(3) == 0 and lab.ndim > 1:
            arg = np.asfortranarray(lab)
        got = glass.redshifts_from_bins(arg, mk(xp, z), nz, rng=Script(u=u))
        g = npa(got)
        ck.ok(nsname(got) == name, "backend of redshifts", d)
        num = []
        for i, v in enumerate(g.ravel()):
            q = int(a[i]) if i < n else 0
            f = pos[q]
            cum = np.concatenate([[0], np.cumsum((f[1:] + f[:-1]) / 2 * np.diff(z))])
            uv = np.interp(v, z, cum / cum[-1])
            hit = np.nonzero(np.abs(u - uv) < 1e-9)[0] if 3 * q < v < 3 * q + 3 else []
            num.append(int(hit[0]) + 1 if len(hit) else 0)
        ev.append({"op": "bins", "labels": [int(i) for i in a], "num": num, "shape": list(shape), "got": list(g.shape)})


def bulk(ck):
    """Catalogues of realistic length, distributions on fine grids."""
    for t, n in enumerate([100_001, 3000] if ck.quick else [1_500_007, 100_001, 3000, 65_536]):
        for name, xp in BACKENDS:
            z = np.cumsum(ck.rng.uniform(0.1, 1, 2501 if t % 2 else 300)) / 500
            f = z**2 * np.exp(-((z / 0.9) ** 1.5)) + ck.rng.uniform(0, 0.2, len(z)) * (1 - t % 2)
            u = ck.rng.uniform(size=n)
            u[:9] = [0.0, 1e-12, 1e-9, 1e-7, 1e-6, 1e-5, 1 - 1e-6, 1 - 1e-9, 1 - 1e-12]
            det = {"redshifts": n, "grid": len(z), "backend": name}
            ck.traces += 1
            with ck.case("many redshifts", det, timeout=200):
                got = npa(glass.redshifts_from_nz(n, mk(xp, z), mk(xp, f), rng=Script(u=u), warn=False))
                ck.ok(close(got, inv(z, f, u), rtol=1e-8, atol=1e-8), "redshifts of a long catalogue", det)
                got = npa(glass.redshifts(n, glass.RadialWindow(mk(xp, z), mk(xp, f)), rng=Script(u=u)))
                ck.ok(close(got, inv(z, f, u), rtol=1e-8, atol=1e-8), "redshifts of a long catalogue", det)
            # many populations
            P = 150
            cnt = ck.rng.integers(0, 40, P)
            fs = ck.rng.uniform(0, 1, (P, len(z)))
            u = ck.rng.uniform(size=int(cnt.sum()))
            with ck.case("redshifts of many populations", det, timeout=200):
                got = npa(glass.redshifts_from_nz(mk(xp, cnt, int), mk(xp, z), mk(xp, fs), rng=Script(u=u), warn=False))
                ck.ok(close(got, np.concatenate([inv(z, fs[i], v) for i, v in enumerate(np.split(u, np.cumsum(cnt)[:-1]))]), rtol=1e-9, atol=1e-9),
                      "redshifts of many populations", det)
            # many labels in a long catalogue: every redshift lies in the support of its label
            L = 60
            lab = ck.rng.permutation(1000)[:L]
            zz = np.arange(3 * L + 1.0)
            nz = {int(v): mk(xp, np.where((zz >= 3 * i + 1) & (zz <= 3 * i + 2), 1.0, 0.0)) for i, v in enumerate(lab)}
            a = ck.rng.integers(0, L, n // 2)
            with ck.case("redshifts of many bins", det, timeout=200):
                u = ck.rng.uniform(size=len(a))
                got = npa(glass.redshifts_from_bins(mk(xp, lab[a], int), mk(xp, zz), nz, rng=Script(u=u)))
                ck.ok(got.shape == a.shape and bool(np.all((got > 3 * a) & (got < 3 * a + 3))), "redshifts of many bins belong to their bin", det)
                # every number is used once
                y = got - 3 * a
                c = np.interp(y, [0, 1, 2, 3], [0, 0.25, 0.75, 1])
                ck.ok(close(np.sort(c), np.sort(u), rtol=1e-7, atol=1e-7), "every number gives one redshift", det)


def run(ck):
    q = ck.quick
    fu = ck.tlc_bg("Redshifts", {"Grids": "{<<0, 1>>, <<0, 1, 3>>, <<1, 2, 3, 5>>, <<0, 2, 3, 4, 7>>}" if q else
                                 "{<<0, 1>>, <<0, 1, 3>>, <<1, 2, 3, 5>>, <<0, 2, 3, 4, 7>>, <<0, 1, 2, 3, 4, 5>>}",
                                 "Vals": "{0, 1, 3}", "UD": UD},
                   invariants=["Monotone", "Support", "Mass", "Emit"])
    fs = ck.tlc_bg("Segments", {"Shapes": "{<<>>, <<1>>, <<2>>, <<3, 1>>, <<2, 2>>, <<3, 2>>}", "NPar": 2, "Counts": "{0, 1, 3}",
                                "MaxVary": 2 if q else 4},
                   invariants=["Partition", "InBounds", "Emit"])
    recs = fu.result()
    ck.sample(recs[len(recs) // 2])
    for m, r in enumerate(recs):
        single(ck, r, *BACKENDS[[0, 2][m % 2] if m % 40 else 1], m)
    recs = fs.result()
    ck.rng.shuffle(recs)
    ck.sample(recs[0])
    for m, r in enumerate(recs[: 700 if q else 6000]):
        arrays(ck, r, *BACKENDS[[0, 2][m % 2] if m % 70 else 1])
    ev = []
    for m in range(400 if q else 3000):
        shape = [(7,), (3, 4), (2, 3, 2), (1, 5), (), (0,), (40,), (5, 1, 4), (2, 0), (12, 11)][m % 10]
        name, xp = BACKENDS[[0, 2][m // 10 % 2] if m % 37 else 1]
        labels = [[0, 1, 2], [5, -3, 100, 7], [2, 1], [11], [3, 0, 9, 4, 1, 8]][int(ck.rng.integers(5))]
        if xp is NP and m % 6 == 0:
            labels = [["b", "a", "c"], [0.5, 2.25, -1.0], [True, False]][int(ck.rng.integers(3))]
        bins(ck, ev, shape, labels, name, xp, True, ["any", "few", "sorted", "reversed"][m % 4])
    ck.validate("BinsTrace", ev)
    bulk(ck)
    for name, xp in BACKENDS:
        ck.raises(ValueError, "a label without distribution is refused",
                  lambda: glass.redshifts_from_bins(mk(xp, [1, 2], int), mk(xp, [0., 1]), {1: mk(xp, [1., 1])}), name)


main("C15", run)
