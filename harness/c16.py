"""C16: photometric redshifts (Redraw.tla, RedrawTrace.tla)."""
from vf import *  # noqa: F403

F = Fraction


def fq(a):
    return [[F(float(v)).numerator, F(float(v)).denominator] for v in np.asarray(a, float).ravel()]


def dyadic(rng, lo, hi, den=4):
    return float(rng.integers(int(lo * den), int(hi * den) + 1)) / den


def plan(ck, hist, zs, ss, lim, lo_kind, hi_kind):
    """Numbers that realise a history of accepted and rejected draws."""
    n = len(hist[0])
    dims = np.broadcast_shapes(zs, ss)
    z = np.array([float(ck.rng.choice([0.0, 1.0, 3.0])) for _ in range(int(np.prod(zs, dtype=int)))]).reshape(zs)
    s = np.array([float(ck.rng.choice([0.5, 0.25, 1.0])) for _ in range(int(np.prod(ss, dtype=int)))]).reshape(ss)
    zb = np.broadcast_to(z, dims).ravel()
    sb = np.broadcast_to(s, dims).ravel()
    lo = {"none": None, "scalar": 0.5, "array": np.array([dyadic(ck.rng, 0, 2) for _ in range(n)]).reshape(dims)}[lo_kind]
    hi = {"none": None, "scalar": 3.5, "array": np.array([dyadic(ck.rng, 2.5, 4) for _ in range(n)]).reshape(dims)}[hi_kind]
    lob = np.broadcast_to(0.0 if lo is None else lo, dims).ravel()
    hib = np.broadcast_to(math.inf if hi is None else hi, dims).ravel()
    zz = []
    for r in hist:
        for i, where in enumerate(r):
            a, b = lob[i], hib[i]
            top = b if math.isfinite(b) else a + 4
            if where == "hi" and not math.isfinite(b):
                where = "lo"
            v = {"lo": a - dyadic(ck.rng, 0.25, 2), "hi": top + dyadic(ck.rng, 0.25, 2), "atlo": a, "athi": top,
                 "in": a + (top - a) * float(ck.rng.choice([0.25, 0.5, 0.75]))}[where]
            zz.append((v - zb[i]) / ((1 + zb[i]) * sb[i]))
    return z, s, lo, hi, zz


class Rec(Script):
    """Keeps the numbers handed out in every draw."""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.draws = []

    def _take(self, kind, shape):
        i = self.iz
        r = super()._take(kind, shape)
        if kind == "z":
            self.draws.append(self.z[i : self.iz])
        return r


def run_one(ck, ev, z, s, lo, hi, zz, name, xp, pyscalar):
    dims = np.broadcast_shapes(np.shape(z), np.shape(s))
    d = {"z": z, "sigma": s, "lower": lo, "upper": hi, "normals": zz, "backend": name}
    ck.traces += 1
    rng = Rec(z=list(zz) + [])
    conv = lambda v: v if v is None else (float(v) if np.ndim(v) == 0 and pyscalar else mk(xp, v))
    local = [{"op": "start", "zs": list(np.shape(z)), "ss": list(np.shape(s)), "z": fq(z), "sig": fq(s),
              "lo": fq(0.0 if lo is None else lo), "hi": [[0, 0]] if hi is None else fq(hi)}]
    with ck.case("gaussian_phz", d):
        a, b = conv(z), conv(s)
        kw = {"xp": xp} if pyscalar else {}
        keep = [None if v is None else npa(v).copy() for v in (a, b)]
        try:
            out = glass.gaussian_phz(a, b, lower=conv(lo), upper=conv(hi), rng=rng, **kw)
        except MachineryExhausted:
            # more draws than the history has: the draws so far are judged
            local += [{"op": "draw", "s": fq(x)} for x in rng.draws]
            local.append({"op": "draw", "s": fq([0.0] * int(np.prod(dims, dtype=int)))})
            ev.extend(local)
            return
        ck.ok(nsname(out) == name, "backend of the result", d)
        ck.ok(all(same(v, k) for v, k in zip((a, b), keep)), "arguments are unchanged", d)
        local += [{"op": "draw", "s": fq(x)} for x in rng.draws]
        g = npa(out)
        local.append({"op": "end", "out": fq(g), "shape": list(g.shape)})
        ev.extend(local)


def bulk(ck):
    """Catalogues of realistic length (the history of Redraw.tla, entry by entry)."""
    for t, n in enumerate([70_001, 1000, 33_000, 257] if ck.quick else [1_000_003, 70_001, 1000, 33_000, 257, 4096, 100_000]):
        name, xp = BACKENDS[[0, 2, 1, 0][t % 4]]
        z = ck.rng.uniform(0, 3, n)
        s = [ck.rng.uniform(0.05, 0.3, n), 0.4][t % 2]
        lo, hi = [(None, 3.0), (0.5, None), (np.maximum(z - 0.2, 0), z + 0.1), (None, None)][t % 4]
        lob, hib = np.broadcast_to(0.0 if lo is None else lo, n), np.broadcast_to(np.inf if hi is None else hi, n)
        rng = Rec(z_default=lambda k: ck.rng.normal(size=k))
        rng._take, took = lambda kind, shape: took.append(ck.rng.normal(size=shape)) or took[-1], []  # noqa: B023
        det = {"entries": n, "lower": type(lo).__name__, "upper": type(hi).__name__, "backend": name}
        ck.traces += 1
        with ck.case("many redshifts", det, timeout=200):
            got = npa(glass.gaussian_phz(mk(xp, z), mk(xp, s), lower=lo if np.ndim(lo) == 0 else mk(xp, lo), upper=hi if np.ndim(hi) == 0 else mk(xp, hi), rng=rng))
            exp = np.full(n, np.nan)
            idx = np.arange(n)
            for d in took:
                d = np.ravel(d)[idx] if np.size(d) == n else d
                if not ck.ok(np.size(d) == len(idx) and len(idx) > 0, "only redshifts out of range are redrawn", {**det, "drawn": np.size(d), "out of range": len(idx)}):
                    return
                exp[idx] = z[idx] + (1 + z[idx]) * np.broadcast_to(s, n)[idx] * np.ravel(d)
                idx = idx[~((exp[idx] >= lob[idx]) & (exp[idx] <= hib[idx]))]
            ck.ok(not len(idx) and close(got, exp, rtol=1e-12, atol=1e-12), "redshifts of a long catalogue",
                  lambda: {**det, "still out of range": len(idx), "wrong": np.nonzero(np.abs(got - exp) > 1e-9)[0][:5]})


def edges(ck):
    """Draws that miss a limit by very little are drawn again; draws on a limit are kept."""
    for m in range(24):
        name, xp = BACKENDS[[0, 2, 0, 1][m % 4]]
        off = [1e-3, 1e-6, 1e-9, 1e-12][m // 2 % 4]
        lo, hi = 0.5, 1.5
        # unit width around one: redshift 0, so the value is the draw
        first = hi + off if m % 2 else lo - off
        for shape in ((), (3,)):
            n = int(np.prod(shape, dtype=int))
            z = [first] * n + [hi if m % 2 else lo] * n
            det = {"miss": off, "shape": shape, "backend": name}
            ck.traces += 1
            with ck.case("draws near the limits", det):
                got = npa(glass.gaussian_phz(mk(xp, np.zeros(shape)), mk(xp, np.ones(shape)), lower=lo, upper=hi, rng=Script(z=z, z_default=1.0)))
                ck.ok(got.shape == shape and bool(np.all((got >= lo) & (got <= hi))), "redshifts are within the limits", {**det, "got": got})


def run(ck):
    q = ck.quick
    Out, In = '{"lo", "hi"}', '{"in", "atlo", "athi"}'
    cfg = [(1, 3), (2, 2), (3, 1)] if q else [(1, 4), (2, 3), (3, 2)]
    futs = [ck.tlc_bg("Redraw", {"N": n, "R": r, "Out": Out, "In": In if n < 3 or q else '{"in", "atlo"}'},
                      invariants=["First", "Emit"], properties=["Final", "Stops"], name=f"Redraw-{n}", timeout=500) for n, r in cfg]
    ev = []
    m = 0
    shapes = {1: [((), ()), ((1,), ()), ((), (1,)), ((1, 1), (1,))], 2: [((2,), ()), ((), (2,)), ((2,), (2,)), ((1, 2), (2,)), ((2, 1), (1,))],
              3: [((3,), ()), ((3,), (3,)), ((1,), (3,)), ((3, 1), (1, 1))]}
    for (n, _), f in zip(cfg, futs):
        recs = f.result()
        ck.sample(recs[len(recs) // 2])
        ck.rng.shuffle(recs)
        for r in recs[: 500 if q else 4000]:
            zs, ss = shapes[n][m % len(shapes[n])]
            lk, hk = [("none", "none"), ("scalar", "scalar"), ("array", "array"), ("none", "array"), ("array", "none"),
                      ("scalar", "array"), ("array", "scalar"), ("none", "scalar"), ("scalar", "none")][m % 9]
            name, xp = BACKENDS[[0, 2][m % 2] if m % 41 else 1]
            z, s, lo, hi, zz = plan(ck, r["hist"], zs, ss, None, lk, hk)
            run_one(ck, ev, z, s, lo, hi, zz, name, xp, bool(m % 3 == 0))
            m += 1
    # larger arrays, several axes, random histories
    for t in range(60 if q else 400):
        zs, ss = [((6,), ()), ((3, 4), ()), ((4, 1), (3,)), ((2, 3), (3,)), ((), (5,)), ((2, 1, 2), (2, 1))][t % 6]
        dims = np.broadcast_shapes(zs, ss)
        n = int(np.prod(dims, dtype=int))
        hist, ok = [], np.zeros(n, bool)
        while not ok.all():
            w = ck.rng.choice(["lo", "hi", "in", "atlo", "athi"], n, p=[0.2, 0.2, 0.4, 0.1, 0.1])
            w = np.where(ok, ck.rng.choice(["lo", "in"], n), w)
            hist.append(list(w))
            ok |= np.isin(w, ["in", "atlo", "athi"])
        name, xp = BACKENDS[[0, 2][t % 2] if t % 15 else 1]
        z, s, lo, hi, zz = plan(ck, hist, zs, ss, None, ["none", "scalar", "array"][t % 3], ["array", "scalar", "none"][t // 3 % 3])
        run_one(ck, ev, z, s, lo, hi, zz, name, xp, False)
    ck.validate("RedrawTrace", ev)
    ck.sample(ev[:3])
    bulk(ck)
    edges(ck)
    # refusals
    for name, xp in BACKENDS:
        z3 = mk(xp, [1.0, 1.0, 1.0])
        bad = [("limits that are not increasing", dict(lower=1.0, upper=1.0)), ("limits that are not increasing", dict(lower=2.0, upper=1.0)),
               ("limits that are not increasing", dict(upper=0.0)), ("limits that are not increasing", dict(upper=-1.0)),
               ("limits that are not increasing", dict(lower=mk(xp, [0., 2, 0]), upper=mk(xp, [1., 2, 3]))),
               ("limits that are not increasing", dict(lower=mk(xp, [0., 2, 0]), upper=2.0)),
               ("limits that are not increasing", dict(lower=mk(xp, [0., 2, 0]), upper=1.0)),
               ("limits of another shape", dict(lower=mk(xp, [0., 0]), upper=mk(xp, [2., 2]))),
               ("limits of another shape", dict(lower=mk(xp, [0., 0, 0, 0]))),
               ("limits of another shape", dict(upper=mk(xp, [[2., 2, 2]]))),
               ("limits of another shape", dict(lower=mk(xp, [[0., 0, 0]] * 2), upper=2.0)),
               ("limits of another shape", dict(lower=0.5, upper=mk(xp, [2.0, 2.0]))),
               ("limits of another shape", dict(lower=mk(xp, [0., 0, 0]), upper=mk(xp, [2.0])))]
        for c, kw in bad:
            ck.raises(ValueError, c + " are refused", lambda: glass.gaussian_phz(z3, 0.0, rng=Script(z_default=0.0), **kw), (name, kw))
        for kw in (dict(lower=0.0, upper=mk(xp, [1.0, 2.0])), dict(lower=mk(xp, [0.0]), upper=mk(xp, [2.0]))):
            ck.raises(ValueError, "limits of another shape are refused",
                      lambda: glass.gaussian_phz(1.0, 0.0, rng=Script(z_default=0.0), xp=xp, **kw), (name, kw))


main("C16", run)
