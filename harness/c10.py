"""C10: non-negative least squares (Nnls.tla)."""
from vf import *  # noqa: F403

import glass.algorithm as ga


def systems(rng, k):
    out = []
    while len(out) < k:
        m, n = [(1, 1), (2, 2), (3, 2), (3, 3), (3, 3), (4, 3), (2, 1), (4, 3)][len(out) % 8]
        a = rng.integers(-2, 3, (m, n))
        if np.linalg.matrix_rank(a) == n:
            out.append(a.tolist())
    return out


def large(rng, n, k, deg):
    """Integer system of full rank with a known integer optimum."""
    U = np.tril(rng.integers(-1, 2, (n, n)), -1) + np.eye(n, dtype=int)
    U *= (rng.integers(0, 3, (n, n)) == 0) | np.eye(n, dtype=bool)
    U = U[rng.permutation(n)][:, rng.permutation(n)]
    V = rng.integers(-2, 3, (k, n))
    x = rng.integers(0, 6, n) * (rng.integers(0, 3, n) > 0)
    g = np.where(x > 0, 0, -rng.integers(0 if deg else 1, 5, n))
    s = rng.integers(-2, 3, k)
    top = np.rint(np.linalg.solve(U.T.astype(float), (g - V.T @ s).astype(float))).astype(int)
    a = np.concatenate([U, V])
    r = np.concatenate([top, s])
    p = rng.permutation(n + k)
    return a[p], (a @ x + r)[p], x


def bulk(ck):
    """Systems as large as those of real shells, by the conditions of the optimum."""
    for m in range(9 if ck.quick else 90):
        name, xp = BACKENDS[m % 3]
        n = int(ck.rng.choice([40, 100, 200] if name != "jax.numpy" else [30, 50]))
        k = n + int(ck.rng.choice([0, 1, n, 3 * n]))
        a, b = ck.rng.standard_normal((k, n)), ck.rng.standard_normal(k)
        if m % 2:   # overlapping windows
            a = np.maximum(0, 1 - np.abs(np.linspace(0, n, k)[:, None] - np.arange(n)) / 1.5) + np.where(np.arange(k)[:, None] == np.arange(n), 0.1, 0.0)
            b = ck.rng.standard_normal(k) + 0.3
        det = {"shape": a.shape, "kind": m % 2, "backend": name}
        with ck.case("nnls", det, timeout=100):
            A, B = mk(xp, a), mk(xp, b)
            g = npa(ga.nnls(A, B))
            ck.traces += 1
            if ck.ok(g.shape == (n,) and bool(np.all(g >= 0)), "all entries are non-negative", det):
                w = a.T @ (b - a @ g)
                ck.ok(bool(np.all(w < 1e-8) and np.all(np.abs(w[g > 0]) < 1e-8)), "nnls is the optimum", {**det, "gradient": [float(w.max()), float(np.abs(w[g > 0]).max(initial=0))]})
            ck.ok(same(A, a) and same(B, b), "the system is left alone", det)


def run(ck):
    q = ck.quick
    rng = np.random.default_rng([ck.seed, 10])
    As = systems(rng, 40 if q else 160)
    recs = ck.tlc("Nnls", {"As": "{" + ", ".join(tla(a) for a in As) + "}", "BVals": "{-1, 0, 1, 3}" if q else "{-2, -1, 0, 1, 3}"},
                  invariants=["Feasible", "Optimal", "Cheap", "Emit"], properties=["Ends"], workers=8)
    # matrices for which more steps than columns are needed
    hard = json.loads((pathlib.Path(__file__).parent / "nnls_hard.json").read_text())
    h3 = [h["a"] for h in hard if len(h["a"][0]) == 3 and len(h["a"]) == 3][: 4 if q else 20]
    more = ck.tlc("Nnls", {"As": "{" + ", ".join(tla(a) for a in h3) + "}", "BVals": "-4..4" if q else "-6..6"},
                  invariants=["Feasible", "Optimal", "Cheap", "Emit"], properties=["Ends"], workers=8, name="Nnls-hard")
    more = [r for r in more if r["it"] > len(r["x"])] + more[:: 9]
    ck.clauses["systems with more steps than columns in the model"] = sum(r["it"] > len(r["x"]) for r in more)
    recs += more
    seen = {}
    for r in recs:
        seen[json.dumps([r["a"], r["b"]])] = r
    recs = [seen[k] for k in sorted(seen)]
    ck.sample(recs[len(recs) // 2])
    ck.clauses["systems where more steps than variables were needed"] = sum(r["it"] > sum(v[0] > 0 for v in r["x"]) for r in recs)
    for m, r in enumerate(recs):
        name, xp = BACKENDS[[0, 0, 2][m % 3] if m % 200 else 1]
        sc = [1.0, 1.0, 0.1, 1e4, 1e-6][m % 5]
        a, b, x = np.array(r["a"], float), np.array(r["b"], float), np.array(qf(r["x"], 1))
        d = {"a": a, "b": b, "scale": sc, "expected": x, "backend": name}
        ck.traces += 1
        with ck.case("nnls", d, timeout=20):
            A, B = mk(xp, a * sc), mk(xp, b)
            got = ga.nnls(A, B)
            g = npa(got) * sc
            ck.ok(g.shape == x.shape and nsname(got) == name and bool(np.all(np.abs(g - x) < 1e-8)), "nnls is the optimum", lambda: {**d, "got": g})
            ck.ok(bool(np.all(g >= 0)), "all entries are non-negative", lambda: {**d, "got": g})
            ck.ok(same(A, a * sc) and same(B, b), "the system is left alone", d)
    lines = []
    sizes = [(3, 2), (4, 0), (5, 3), (6, 6), (8, 4), (10, 5), (12, 12)]
    for m in range(420 if q else 4000):
        n, k = sizes[m % len(sizes)]
        a, b, x = large(rng, n, k, m % 2 == 0)
        name, xp = BACKENDS[[0, 2][m % 2] if m % 70 else 1]
        if np.abs(b).max() > 10**5:
            continue
        with ck.case("nnls", {"a": a, "b": b, "backend": name}, timeout=20):
            g = npa(ga.nnls(mk(xp, a), mk(xp, b)))
            if ck.ok(g.shape == (n,), "one entry per column", {"a": a}):
                r = np.rint(g)
                lines.append({"a": a.tolist(), "b": b.tolist(), "x": r.astype(int).tolist(), "near": bool(np.all(np.abs(g - r) < 1e-6) and np.all(g >= 0))})
    for m, h in enumerate(hard):
        for name, xp in BACKENDS if m % 10 == 0 else BACKENDS[::2]:
            for f in (1, -1):
                a, b = np.array(h["a"]), f * h["scale"] * np.array(h["b"])
                if f < 0:
                    # reordered columns: the same system
                    b = -b
                    p = rng.permutation(a.shape[1])
                    a = a[:, p]
                with ck.case("nnls", {"a": a, "b": b, "backend": name}, timeout=20):
                    g = npa(ga.nnls(mk(xp, a), mk(xp, b)))
                    r = np.rint(g)
                    lines.append({"a": a.tolist(), "b": b.tolist(), "x": r.astype(int).tolist(), "near": bool(np.all(np.abs(g - r) < 1e-5) and np.all(g >= 0))})
    ck.validate("NnlsTrace", lines)
    bulk(ck)
    for name, xp in BACKENDS:
        A, B = mk(xp, [[1.0, 0.0], [0.0, 1.0], [1.0, 1.0]]), mk(xp, [1.0, 2.0, 3.0])
        ck.raises(ValueError, "dimensions that do not match are refused", lambda: ga.nnls(A, mk(xp, [1.0, 2.0])), name)
        ck.raises(ValueError, "dimensions that do not match are refused", lambda: ga.nnls(B, B), name)
        ck.raises(ValueError, "dimensions that do not match are refused", lambda: ga.nnls(A, A), name)
        ck.raises(ValueError, "dimensions that do not match are refused", lambda: ga.nnls(mk(xp, np.ones((3, 1, 2))), B), name)


main("C10", run)
