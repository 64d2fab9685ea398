"""C09: redshifts distributed over shells (Distribute.tla)."""
from vf import *  # noqa: F403

REAL = 1000


def windows(ws, xp, sc, unit=1.0):
    """The unit of the weights does not matter."""
    return [glass.RadialWindow(mk(xp, np.array(w["z"]) * sc), mk(xp, np.array(w["v"], float) * unit), 0.5) for w in ws]


def draw(z, ws, xp, pick):
    """Call with scripted draws: ``pick(row, p)`` is the column chosen; returns (result, probabilities)."""
    seen = []

    def multinomial(n, p):
        p = np.atleast_2d(p)
        r = np.zeros(p.shape, dtype=int)
        for i, row in enumerate(p):
            r[i, pick(len(seen), row)] = int(n)
            seen.append(row)
        return r
    return glass.distribute(mk(xp, z), ws, rng=Script(multinomial=multinomial)), seen


def learn(z, ws, xp):
    """Result of every outcome of the draw, per redshift: list of {column: shell}, and the probabilities."""
    z = np.asarray(z, float)
    cols = [{} for _ in z]
    prob, k = None, 0
    while True:
        got, seen = draw(z, ws, xp, lambda _i, p, k=k: min(k, len(p) - 1))
        if len(seen) != len(z):
            return None, None
        prob = seen
        g = npa(got)
        for i, c in enumerate(cols):
            c[min(k, len(prob[i]) - 1)] = int(g[i])
        k += 1
        if k >= max(len(p) for p in prob):
            return cols, prob


def replay(ck, group, name, xp, m):
    ws0, zs = group[0]["ws"], group[0]["zs"]
    sc = [0.5, 1.0, 0.15][m % 3]
    ws = windows(ws0, xp, sc, [1.0, 2.0**-40, 1.0, 2.0**30, 2.0**-100][m % 5])
    # nodes are passed as computed for the windows, so that edges are hit exactly
    z = np.array(zs) * sc if zs else np.zeros(0)
    exp = np.array([qf(p, 1) for p in group[0]["p"]]).reshape(len(zs), len(ws) + 1)
    d = {"windows": ws0, "z": z, "backend": name}
    n = len(z)
    with ck.case("distribute", d):
        ck.traces += 1
        cols, prob = learn(z, ws, xp) if n else ([], [])
        if cols is not None:
            P = np.zeros((n, len(ws) + 1))
            bad = False
            for i in range(n):
                for c, r in cols[i].items():
                    if -1 <= r < len(ws):
                        P[i, r + 1] += prob[i][c]
                    elif prob[i][c] > 0:
                        bad = True
            ck.ok(not bad, "only shells of the list or -1", lambda: {**d, "columns": cols})
            ck.ok(np.allclose(P, exp, atol=1e-9) if n else True, "probability of every shell is its share of the windows at the redshift",
                  lambda: {**d, "got": P, "expected": exp})
            ck.ok(bool(np.all((P > 0) == (exp > 0))), "never a shell that is zero at the redshift", lambda: {**d, "got": P, "expected": exp})
        else:   # the code draws in another way: distribution over a fine grid of uniform numbers
            M = 240
            P = np.zeros((n, len(ws) + 1))
            for k in range(M):
                g = npa(glass.distribute(mk(xp, z), ws, rng=Script(u_default=(k + 0.5) / M)))
                P[np.arange(n), g + 1] += 1 / M
            ck.ok(np.allclose(P, exp, atol=2.5 / M), "probability of every shell is its share of the windows at the redshift",
                  lambda: {**d, "got": P, "expected": exp})
            ck.ok(bool(np.all(P[exp == 0] == 0)), "never a shell that is zero at the redshift", lambda: {**d, "got": P, "expected": exp})
            return
        inv = [{r: c for c, r in cs.items() if prob[i][c] > 0} for i, cs in enumerate(cols)]
        for b in group[: 12 if ck.quick else 400]:
            shape = [(n,), (n, 1), (1, n), (2, n // 2) if n % 2 == 0 else (n,)][m % 4] if n else [(0,), (0, 3), (2, 0)][m % 3]
            want = b["out"]
            if any(r not in inv[i] for i, r in enumerate(want)):
                ck.fail("every shell of the support can be drawn", {**d, "out": want})
                continue
            got, seen = draw(z.reshape(shape), ws, xp, lambda i, p, want=want: inv[i][want[i]])
            ck.traces += 1
            ck.ok(npa(got).shape == shape and nsname(got) == name and npa(got).dtype.kind == "i", "output has the shape of the input", lambda: {**d, "shape": shape, "got": got})
            ck.ok(npa(got).ravel().tolist() == list(want), "each entry belongs to its own redshift", lambda: {**d, "want": want, "got": got})


def big(ck, wins):
    """Sizes around the internal batch, real generators; traces for TLC, frequencies here."""
    q = ck.quick
    lines = []
    for m, size in enumerate([1, 2, 999, 1000, 1001, 1999, 2000, 2001, 2500, 3000] + ([] if q else [5000, 7001, 10000, 12345])):
        for bi, (name, xp) in enumerate(BACKENDS):
            if xp is JX and m % 4:
                continue
            ws0 = wins[(m + bi) % len(wins)]
            sc = [0.5, 0.15][m % 2]
            zi = ck.rng.integers(-1, 14, size)
            z = zi * sc
            shape = (50, 50) if size == 2500 else (3, 3, 111) if size == 999 else next(s for s in [(2, size // 2), (5, size // 5), (size,)] if np.prod(s) == size and (m + bi) % 2 or s == (size,))
            rng = np.random.default_rng(m) if m % 3 else None
            if xp is JX:
                rng = None if m % 3 == 0 else __import__("glass.jax").jax.Generator(m)
            d = {"size": size, "shape": shape, "windows": ws0, "backend": name}
            with ck.case("distribute", d, timeout=200):
                got = npa(glass.distribute(mk(xp, z.reshape(shape)), windows(ws0, xp, sc, [1.0, 2.0**-60][m % 2]), rng=rng))
                if not ck.ok(got.shape == shape, "output has the shape of the input", d):
                    continue
                o = got.ravel()
                lines.append({"ev": "start", "ws": ws0, "size": size})
                lines += [{"ev": "rows", "z": zi[s : s + 250].tolist(), "o": o[s : s + 250].tolist()} for s in range(0, size, 250)]
                lines.append({"ev": "end"})
    # the draw decides, anywhere in a long catalogue
    for size in [60_001] if q else [60_001, 250_000]:
        name, xp = BACKENDS[[0, 2][size % 2]]
        zi = ck.rng.uniform(0, 3, size)
        ws = [glass.RadialWindow(mk(xp, [i - 1.0, i, i + 1.0]), mk(xp, [0.0, 1.0, 0.0]), 0.5) for i in range(4)]
        pick = ck.rng.integers(0, 2, size)
        left = np.floor(zi).astype(int)
        i = 0

        def multinomial(n, p):
            nonlocal i
            p = np.atleast_2d(p)
            r = np.zeros(p.shape, int)
            for row in range(len(p)):
                c = np.nonzero(p[row] > 0)[0]
                r[row, c[pick[i] % len(c)]] = 1
                i += 1
            return r
        d = {"size": size, "backend": name}
        ck.traces += 1
        with ck.case("distribute", d, timeout=200):
            got = npa(glass.distribute(mk(xp, zi), ws, rng=Script(multinomial=multinomial)))
            ck.ok(i == size and bool(np.all(got == left + pick)), "the shell of a redshift is the one drawn for it", lambda: {**d, "first": np.nonzero(got != left + pick)[0][:5]})
    ck.validate("DistributeTrace", lines, {"B": REAL, "WinSets": "{}", "Zs": "{}", "MaxSize": 0})


def frequencies(ck, wins, table):
    """Real generators: frequencies within six standard deviations, independent of neighbours."""
    N = 3000 if ck.quick else 20000
    for w, ws0 in enumerate(wins):
        for bi, (name, xp) in enumerate(BACKENDS):
            if xp is JX and w > 1:
                continue
            zz = sorted({z for (k, z) in table if k == json.dumps(ws0)})
            z = np.repeat(np.array(zz), N // len(zz))
            perm = ck.rng.permutation(len(z))
            rng = np.random.default_rng([ck.seed, w]) if xp is not JX else __import__("glass.jax").jax.Generator(5)
            with ck.case("distribute", {"windows": ws0, "backend": name}, timeout=200):
                o = npa(glass.distribute(mk(xp, z[perm] * 0.5), windows(ws0, xp, 0.5), rng=rng))
                for v in zz:
                    k = o[z[perm] == v]
                    p = np.array(qf(table[json.dumps(ws0), v], 1))
                    c = np.array([(k == r - 1).sum() for r in range(len(p))])
                    sd = np.sqrt(len(k) * p * (1 - p))
                    ck.ok(bool(np.all(np.abs(c - len(k) * p) <= 6 * sd + 1e-6)), "frequencies follow the windows", lambda: {"z": v / 2, "windows": ws0, "counts": c, "expected": p * len(k)})
                    if p.max() < 0.99:   # successive draws are not tied to each other
                        e = (k[1:] == k[:-1]).mean()
                        pe = float((p**2).sum())
                        ck.ok(abs(e - pe) < 7 * math.sqrt(pe * (1 - pe) / len(k)) * 1.5, "draws are independent", {"z": v / 2, "windows": ws0, "equal neighbours": e, "expected": pe})


def run(ck):
    q = ck.quick
    W = lambda z, v: {"z": z, "v": v}  # noqa: E731
    wins = [
        [W([0, 2, 4], [0, 1, 0]), W([2, 4, 8], [0, 1, 0]), W([4, 8, 10], [0, 3, 0])],
        [W([0, 4], [1, 1]), W([4, 8], [3, 3])],
        [W([0, 2], [2, 2]), W([6, 8, 10], [1, 2, 1])],
        [W([0, 8], [1, 3]), W([2, 6], [1, 2]), W([2, 4, 6], [0, 5, 0]), W([0, 10], [0, 2])],
        [W([2, 8], [0, 6])],
    ]
    rec = lambda w: "[z |-> " + tla(w["z"]) + ", v |-> " + tla(w["v"]) + "]"  # noqa: E731
    sets = "{" + ", ".join("<<" + ", ".join(map(rec, w)) + ">>" for w in wins) + "}"
    recs = ck.tlc("Distribute", {"B": 2, "WinSets": sets, "Zs": "{-1, 0, 2, 3, 4, 5, 8, 11}" if q else "{-1, 0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 11}",
                                 "MaxSize": 3}, invariants=["Placed", "Sound", "Total", "Whole", "Emit"])
    groups = {}
    table = {}
    for r in recs:
        groups.setdefault((json.dumps(r["ws"]), tuple(r["zs"])), []).append(r)
        for z, p in zip(r["zs"], r["p"]):
            table[json.dumps(r["ws"]), z] = p
    ck.sample(recs[len(recs) // 2])
    keys = sorted(groups)
    ck.rng.shuffle(keys)
    for m, k in enumerate(keys):
        k = (k[0], tuple(int(v) for v in k[1])) if not isinstance(k, tuple) else k
        name, xp = BACKENDS[[0, 2][m % 2] if m % 50 else 1]
        replay(ck, groups[k], name, xp, m)
    # every backend sees every set of windows, the lot of redshifts at once and beyond a batch
    for w, ws0 in enumerate(wins):
        zz = sorted({z for (k, z) in table if k == json.dumps(ws0)})
        for bi, (name, xp) in enumerate(BACKENDS):
            z = np.array(zz)[ck.rng.integers(0, len(zz), 2300 if xp is not JX or not w else 40)]
            with ck.case("distribute", {"windows": ws0, "backend": name}, timeout=200):
                cols, prob = learn(z * 0.5, windows(ws0, xp, 0.5), xp)
                if cols is None:
                    continue
                exp = np.array([qf(table[json.dumps(ws0), int(v)], 1) for v in z])
                P = np.zeros_like(exp)
                for i, cs in enumerate(cols):
                    for c, r in cs.items():
                        if -1 <= r < len(ws0):
                            P[i, r + 1] += prob[i][c]
                ck.traces += 1
                bad = np.nonzero(~np.isclose(P, exp, atol=1e-9).all(axis=1))[0]
                ck.ok(not len(bad), "probability of every shell is its share of the windows at the redshift",
                      lambda: {"windows": ws0, "size": len(z), "first": bad[:5], "z": z[bad[:5]] * 0.5, "got": P[bad[:5]], "expected": exp[bad[:5]]})
    big(ck, wins)
    frequencies(ck, wins, table)


main("C09", run)
