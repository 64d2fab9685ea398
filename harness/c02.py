"""C02: preparing spectra (Prepare.tla, PrepareTrace.tla)."""
import healpy

from vf import *  # noqa: F403


def window(nside, pol=False, lmax=None, datapath=None):
    """Stand-in for the pixel window data, which are not installed here: distinct, never 1."""
    n = 3 * nside if lmax is None else lmax + 1
    w = 1 / (1.25 + 0.5 * np.arange(n) + 1 / nside)
    return (w, w * 0.9) if pol else w


healpy.pixwin = window


def val(q, m):
    return ((q * 7 + m * 5) % 11) + 1


def content(lens, xp):
    return [mk(xp, [val(q + 1, m) for m in range(k)]) for q, k in enumerate(lens)]


def none(v):
    return None if v < 0 else v


def classify(got, q, nside, lmax):
    g = npa(got)
    if g.ndim != 1:
        return {"keep": -1, "win": 2}
    base = np.array([val(q + 1, m) for m in range(len(g))], float)
    if np.array_equal(g, base):
        w = 0
    else:
        w = 2
        if nside is not None:
            p = window(nside, lmax=lmax)[: len(g)]
            if len(p) == len(g) and np.allclose(g, base * p**2, rtol=1e-12, atol=0):
                w = 1
    return {"keep": len(g), "win": w}


def cut(ck, lens, opt, name, xp):
    """Call discretized_cls the way a user gives options; classified output."""
    cls = content(lens, xp)
    kw = {}
    for k in ("lmax", "ncorr", "nside"):
        if opt[k] >= 0 or ck.rng.integers(2):
            kw[k] = none(opt[k])
    got = glass.discretized_cls(cls, **kw)
    ck.ok(all(same(c, e) for c, e in zip(cls, content(lens, xp), strict=True)), "spectra passed in are not changed", kw)
    ck.ok(all(nsname(g) == name for g in got), "backend of spectra", kw)
    return [classify(g, q, none(opt["nside"]), none(opt["lmax"])) for q, g in enumerate(got)]


def mix(ck, n, lens, cols1, cols2, lmax, name, xp, shape1, shape2, as_same):
    cls = content(lens, xp)
    w1 = mk(xp, np.asarray(cols1, float).T.reshape(n, *shape1))
    w2 = None if cols2 is None else mk(xp, np.asarray(cols2, float).T.reshape(n, *shape2))
    if as_same == "object":
        w2 = w1
    kw = {} if lmax is None and ck.rng.integers(2) else {"lmax": lmax}
    got = glass.effective_cls(cls, w1, w2, **kw) if w2 is not None else glass.effective_cls(cls, w1, **kw)
    ck.ok(all(same(c, e) for c, e in zip(cls, content(lens, xp), strict=True)), "spectra passed in are not changed", kw)
    return got


def shapes(ck, c):
    opts = {0: [(0,), (2, 0)], 1: [(), (1,), (1, 1)], 2: [(2,), (2, 1), (1, 2)], 3: [(3,), (3, 1)], 4: [(4,), (2, 2)], 6: [(6,), (2, 3), (3, 2)]}
    o = opts[c]
    return o[int(ck.rng.integers(len(o)))]


def bulk(ck):
    """Spectra as long, and lists as wide, as those of a survey."""
    for t in range(9 if ck.quick else 30):
        name, xp = BACKENDS[t % 3]
        n = [3, 12, 25][t // 3 % 3]
        lens = [int(v) for v in ck.rng.choice([3001, 1000, 769, 2000, 0], n * (n + 1) // 2, p=[0.4, 0.2, 0.2, 0.15, 0.05])]
        opt = {"lmax": [-1, 1500, 767][t % 3], "ncorr": [3, -1, 11][t % 3], "nside": [256, -1, 512][t // 2 % 3]}
        det = {"n": n, **opt, "backend": name}
        ck.traces += 1
        with ck.case("discretized_cls of long spectra", det):
            got = cut(ck, lens, opt, name, xp)
            cap = min([opt["lmax"] + 1] * (opt["lmax"] >= 0) + [10**9])
            exp = []
            for i in range(n):
                for j in range(i, -1, -1):
                    a = lens[len(exp)]
                    keep = 0 if opt["ncorr"] >= 0 and i - j > opt["ncorr"] else min(a, cap)
                    if opt["nside"] > 0:
                        keep = min(keep, len(window(opt["nside"], lmax=none(opt["lmax"]))))
                    exp.append({"keep": keep, "win": int(opt["nside"] > 0 and keep > 0)})
            ck.ok(got == exp, "discretized_cls keeps, cuts, empties and windows as asked", lambda: {**det, "got": [g for g, e in zip(got, exp) if g != e][:3]})
        with ck.case("effective_cls of long spectra", det):
            L = max(lens)
            cls = [ck.rng.normal(size=v) for v in lens]
            w1, w2 = ck.rng.normal(size=(n, 5)), ck.rng.normal(size=(n, 2, 2))
            F = np.zeros((n, n, L))
            for i in range(n):
                for j in range(i + 1):
                    c = cls[i * (i + 1) // 2 + i - j]
                    F[i, j, : len(c)] = F[j, i, : len(c)] = c
            got = glass.effective_cls([mk(xp, c) for c in cls], mk(xp, w1), mk(xp, w2))
            ck.ok(close(got, np.einsum("ia,jbc,ijl->abcl", w1, w2, F, optimize=True), rtol=1e-9, atol=1e-9), "effective spectra are the double sum over fields", det)
            got = glass.effective_cls([mk(xp, c) for c in cls], mk(xp, w1), lmax=2500)
            F2 = np.concatenate([F, np.zeros((n, n, 4000))], -1)[..., :2501]
            ck.ok(close(got, np.einsum("ia,jb,ijl->abl", w1, w1, F2, optimize=True), rtol=1e-9, atol=1e-9), "effective spectra are the double sum over fields", det)


def run(ck):
    q = ck.quick
    none_ = {"MaxN": 1, "Lens": "{0}", "LMaxs": "{-1}", "NCorrs": "{-1}", "Sides": "{-1}", "WVals": "{0}", "MaxCols": 0}
    cutinv = ["KeepsList", "AutosStay", "FarEmpty", "NoOption", "Shorter", "Emit"]
    f1 = ck.tlc_bg("Prepare", {**none_, "Job": '"cut"', "MaxN": 2, "Lens": "{0, 1, 3, 8}", "LMaxs": "{-1, 0, 2, 9}", "NCorrs": "{-1, 0, 1, 3}",
                               "Sides": "{-1, 1, 2}"}, invariants=cutinv, name="Prepare-cut2")
    f2 = ck.tlc_bg("Prepare", {**none_, "Job": '"cut"', "MaxN": 3 if q else 4, "Lens": "{4}", "LMaxs": "{-1, 0, 2, 9}", "NCorrs": "{-1, 0, 1, 2, 3}",
                               "Sides": "{-1, 1, 2}"}, invariants=cutinv, name="Prepare-cut3")
    f3 = ck.tlc_bg("Prepare", {**none_, "Job": '"mix"', "MaxN": 2, "Lens": "{0, 2, 3}" if not q else "{0, 2}", "LMaxs": "{-1, 1, 4}",
                               "WVals": "{0, 1, -2}" if not q else "{1, -2}", "MaxCols": 2}, invariants=["Complete", "MirrorOK", "Emit"], name="Prepare-mix")
    recs = f1.result() + f2.result()
    ck.rng.shuffle(recs)
    ck.sample(recs[0])
    for m, r in enumerate(recs[: 4000 if q else 20000]):
        name, xp = BACKENDS[[0, 2][m % 2] if m % 40 else 1]
        d = {"n": r["n"], "len": r["len"], "opt": r["opt"], "backend": name}
        ck.traces += 1
        with ck.case("discretized_cls", d):
            got = cut(ck, r["len"], r["opt"], name, xp)
            exp = [{"keep": e["keep"], "win": int(e["win"])} for e in r["out"]]
            ck.ok(len(got) == len(exp) and all(g["keep"] == e["keep"] and (not e["keep"] or g["win"] == e["win"]) for g, e in zip(got, exp, strict=False)),
                  "discretized_cls keeps, cuts, empties and windows as asked", lambda: {**d, "got": got, "expected": exp})
    recs = f3.result()
    ck.rng.shuffle(recs)
    ck.sample(recs[0])
    for m, r in enumerate(recs[: 2500 if q else 15000]):
        name, xp = BACKENDS[[0, 2][m % 2] if m % 60 else 1]
        o = r["opt"]
        n, c1 = r["n"], len(o["w1"])
        s1 = shapes(ck, c1)
        s2 = s1 if o["same"] else shapes(ck, len(o["w2"]))
        d = {"n": n, "len": r["len"], "opt": o, "shapes": [s1, s2], "backend": name}
        ck.traces += 1
        with ck.case("effective_cls", d):
            same_as = ["none", "object"][m % 2] if o["same"] else None
            got = mix(ck, n, r["len"], np.asarray(o["w1"]).reshape(c1, n), None if o["same"] else np.asarray(o["w2"]).reshape(-1, n),
                      none(o["lmax"]), name, xp, s1, s2, same_as)
            nl = o["lmax"] + 1 if o["lmax"] >= 0 else max(r["len"])
            c2 = c1 if o["same"] else len(o["w2"])
            exp = np.asarray(r["out"], float).reshape(*s1, *s2, nl) if c1 * c2 * nl else np.zeros((*s1, *s2, nl))
            ck.ok(close(got, exp, rtol=0, atol=1e-9) and nsname(got) == name, "effective spectra are the double sum over fields",
                  lambda: {**d, "got": got, "expected": exp})
    ev = []
    for m in range(250 if q else 2000):
        n = int(ck.rng.integers(3, 9))
        name, xp = BACKENDS[[0, 2][m % 2] if m % 25 else 1]
        lens = [int(v) for v in ck.rng.choice([0, 1, 4, 5, 7, 12], n * (n + 1) // 2)]
        opt = {"lmax": int(ck.rng.choice([-1, 0, 3, 5, 20])), "ncorr": int(ck.rng.choice([-1, 0, 1, 2, n - 2, n - 1, n + 3])), "nside": int(ck.rng.choice([-1, -1, 1, 2, 4]))}
        ck.traces += 1
        with ck.case("discretized_cls", {"n": n, "len": lens, **opt}):
            ev.append({"op": "cut", "n": n, "len": lens, **opt, "out": cut(ck, lens, opt, name, xp)})
        n = int(ck.rng.integers(2, 6))
        lens = [int(v) for v in ck.rng.choice([0, 1, 3, 4], n * (n + 1) // 2)]
        c1, c2 = int(ck.rng.choice([1, 2, 4, 6])), int(ck.rng.choice([1, 2, 3]))
        w1, w2 = ck.rng.integers(-3, 4, (c1, n)), ck.rng.integers(-3, 4, (c2, n))
        kind = ["two", "none", "object", "equal"][m % 4]
        lmax = int(ck.rng.choice([-1, 0, 2, 6]))
        s1 = shapes(ck, c1)
        s2 = shapes(ck, c2) if kind == "two" else s1
        if kind != "two":
            w2 = w1
        with ck.case("effective_cls", {"n": n, "len": lens, "shapes": [s1, s2], "kind": kind}):
            got = npa(mix(ck, n, lens, w1, w2 if kind in ("two", "equal") else None, none(lmax), name, xp, s1, s2, kind))
            nl = lmax + 1 if lmax >= 0 else max(lens)
            if ck.ok(got.shape == (*s1, *s2, nl), "shape of effective spectra", {"shapes": [s1, s2], "got": got.shape}):
                g = got.reshape(len(w1), len(w2), nl)
                for a in range(len(w1)):
                    for b in range(len(w2)):
                        vals = [int(round(v)) if abs(v - round(v)) < 1e-9 else 10**6 for v in g[a, b]]
                        ev.append({"op": "mix", "n": n, "len": lens, "u": w1[a], "v": w2[b], "lmax": lmax, "got": vals})
    ck.validate("PrepareTrace", ev)
    bulk(ck)
    # refusals
    for name, xp in BACKENDS:
        one = [mk(xp, [1.0, 2.0])] * 3
        for bad in ([1.0], [1.0, 2.0, 3.0], 2.0, [[1.0, 2.0]]):
            ck.raises(ValueError, "weights that do not match the fields are refused", lambda: glass.effective_cls(one, mk(xp, bad)), [name, bad])
            ck.raises(ValueError, "weights that do not match the fields are refused",
                      lambda: glass.effective_cls(one, mk(xp, [1.0, 1.0]), mk(xp, bad)), [name, bad])
        for m in (2, 4, 5, 7):
            ck.raises(ValueError, "a list of the wrong length is refused",
                      lambda: glass.effective_cls([mk(xp, [1.0])] * m, mk(xp, [1.0, 1.0])), [name, m])
            ck.raises(ValueError, "a list of the wrong length is refused",
                      lambda: glass.discretized_cls([mk(xp, [1.0])] * m, ncorr=1), [name, m])
    with ck.case("empty list"):
        ck.ok(glass.discretized_cls([], lmax=3, ncorr=1, nside=2) == [], "an empty list stays empty")
    # float weights and spectra, multiplicative structure at generic values
    for m in range(30 if q else 300):
        name, xp = BACKENDS[m % 3 if m < 6 else [0, 2][m % 2]]
        n = int(ck.rng.integers(1, 5))
        L = 6
        cls = [ck.rng.normal(size=int(ck.rng.integers(0, L + 1))) for _ in range(n * (n + 1) // 2)]
        w1, w2 = ck.rng.normal(size=(n, 2, 2)), ck.rng.normal(size=(n, 3))
        with ck.case("effective_cls of generic values"):
            F = np.zeros((n, n, L))
            for i in range(n):
                for j in range(i + 1):
                    c = cls[i * (i + 1) // 2 + i - j]
                    F[i, j, : len(c)] = F[j, i, : len(c)] = c
            got = glass.effective_cls([mk(xp, c) for c in cls], mk(xp, w1), mk(xp, w2), lmax=L - 1)
            ck.ok(close(got, np.einsum("iab,jc,ijl->abcl", w1, w2, F), rtol=1e-10, atol=1e-12), "effective spectra are the double sum over fields",
                  {"n": n, "backend": name})


main("C02", run)
