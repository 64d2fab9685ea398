"""C11: regularised covariances (Psd.tla, NearCorr.tla, Regular.tla)."""
from vf import *  # noqa: F403

import glass.algorithm as ga


def M(x):
    return np.array([qf(r, 1) for r in x])


def rat(a):
    """Matrix of Fractions as a TLA+ expression."""
    return tla([[f"<<{v.numerator},{v.denominator}>>" for v in row] for row in a])


def FM(x):
    return [[Q(v) for v in r] for r in x]


def stacks(ck, mats, sizes):
    """Groups of matrices of equal size in stacks of different shapes."""
    for m, shape in enumerate(sizes):
        k = int(np.prod(shape, dtype=int))
        i = ck.rng.integers(0, len(mats), k)
        yield m, shape, i


def cond(a):
    """Scale of the matrix for comparisons."""
    return max(1.0, float(np.abs(a).max()))


def clip(ck, table, tols):
    for e in table:
        e["A"], e["R"] = M(e["a"]), [M(c) for c in e["clip"]]
    table = [e for e in table if e["top"] >= 0]
    by = {}
    for e in table:
        by.setdefault(len(e["a"]), []).append(e)
    for n, es in sorted(by.items()):
        ck.clauses[f"matrices of dimension {n} with known eigenvalues"] = len(es)
        for name, xp in BACKENDS:
            sub = es if xp is not JX else es[:: max(1, len(es) // 6)]
            A = np.array([e["A"] for e in sub])
            for t, tol in enumerate(tols):
                exp = np.array([e["R"][t] for e in sub])
                kw = {} if tol == 0 else {"rtol": tol}
                for shape in [(len(sub),), (len(sub), 1), (1, len(sub)), (1, 1, len(sub))]:
                    d = {"n": n, "rtol": tol, "backend": name, "shape": shape}
                    ck.traces += len(sub)
                    with ck.case("cov_clip", d):
                        got = ga.cov_clip(mk(xp, A.reshape(*shape, n, n)), **kw)
                        g = npa(got)
                        if ck.ok(g.shape == (*shape, n, n) and nsname(got) == name, "shape of the stack", {**d, "got": g.shape}):
                            g = g.reshape(-1, n, n)
                            bad = [i for i in range(len(sub)) if not np.allclose(g[i], exp[i], atol=1e-12 * cond(A[i]), rtol=0)]
                            ck.ok(not bad, "clipping replaces eigenvalues below the threshold and nothing else", lambda: {
                                **d, "matrix": A[bad[0]], "eigenvalues": sub[bad[0]]["w"], "got": g[bad[0]], "expected": exp[bad[0]]})
                for i in range(0, len(sub), max(1, len(sub) // 8)):
                    with ck.case("cov_clip", {"matrix": A[i], "rtol": tol, "backend": name}):
                        ck.ok(close(ga.cov_clip(mk(xp, A[i]), **kw), exp[i], atol=1e-12 * cond(A[i])), "clipping replaces eigenvalues below the threshold and nothing else",
                              {"matrix": A[i], "rtol": tol, "backend": name})
    return by


def scales(n, m):
    return [np.ones(n), np.array([2.0, 0.5, 3.0, 1.0])[:n], np.array([1e-3, 10.0, 1.0, 0.2])[:n]][m % 3]


def nearest(ck, pairs):
    q = ck.quick
    for n, es in sorted(pairs.items()):
        A = np.array([M(e["a"]) for e in es])
        X = np.array([M(e["x"]) for e in es])
        ck.clauses[f"nearest correlation matrices of dimension {n}"] = len(es)
        # one by one
        for i in range(0, len(es), 5 if q else 1):
            name, xp = BACKENDS[[0, 0, 0, 2][i // 5 % 4]]
            d = {"matrix": A[i], "backend": name}
            ck.traces += 1
            with ck.case("nearcorr", d):
                y = ga.nearcorr(mk(xp, A[i]), niter=5000)
                ck.ok(close(y, X[i], atol=1e-6) and nsname(y) == name, "nearcorr is the nearest correlation matrix", lambda: {**d, "got": y, "expected": X[i]})
                g = npa(y)
                ck.ok(bool(np.all(np.abs(np.diag(g) - 1) <= 1e-12)) and np.allclose(g, g.T, rtol=0, atol=1e-12) and np.linalg.eigvalsh(g)[0] > -1e-9, "nearcorr gives a correlation matrix", lambda: {**d, "got": y})
                s = scales(n, i // 5)
                C = A[i] * s[:, None] * s
                c = npa(ga.cov_nearest(mk(xp, C), niter=5000))
                ck.ok(bool(np.allclose(c, X[i] * s[:, None] * s, atol=1e-6 * s[:, None] * s, rtol=0)) and np.allclose(np.diag(c), s**2, rtol=1e-12),
                      "cov_nearest keeps the diagonal and is nearest in correlation", lambda: {**d, "cov": C, "got": c})
        # stacks: every matrix as if it were alone
        for name, xp in BACKENDS:
            for m, shape, i in stacks(ck, es, [(7,), (2, 3), (1, 2, 2), (4, 1), (1,), ()] if xp is not JX else [(2, 2)]):
                d = {"shape": shape, "backend": name, "n": n, "matrices": A[i].tolist()}
                ck.traces += 1
                with ck.case("nearcorr of a stack", d):
                    a = A[i].reshape(*shape, n, n)
                    x = X[i].reshape(*shape, n, n)
                    it = {"niter": 3000} if xp is not JX else {"niter": 200}
                    y = ga.nearcorr(mk(xp, a), **it)
                    ck.ok(close(y, x, atol=1e-6), "each matrix of a stack as if alone", lambda: {**d, "got": y})
                    s = np.array([scales(n, k) for k in range(len(i))]).reshape(*shape, n)
                    S = s[..., :, None] * s[..., None, :]
                    c = npa(ga.cov_nearest(mk(xp, a * S), **it))
                    ck.ok(c.shape == x.shape and bool(np.all(np.abs(c - x * S) < 1e-6 * S)), "each matrix of a stack as if alone", lambda: {**d, "got": c})
    # zero rows
    for n, es in sorted(pairs.items()):
        for k, e in enumerate(es[:: max(1, len(es) // 12)]):
            name, xp = BACKENDS[[0, 2][k % 2]]
            a, x = M(e["a"]), M(e["x"])
            z = k % (n + 1)
            b, y = np.zeros((n + 1, n + 1)), np.zeros((n + 1, n + 1))
            keep = [i for i in range(n + 1) if i != z]
            b[np.ix_(keep, keep)], y[np.ix_(keep, keep)] = a * 4, x * 4
            with ck.case("cov_nearest with a zero row", {"cov": b, "backend": name}):
                got = ga.cov_nearest(mk(xp, b), niter=5000)
                ck.ok(close(got, y, atol=4e-6), "rows without variance stay zero", lambda: {"cov": b, "got": got, "expected": y})
    for name, xp in BACKENDS:
        ck.raises(ValueError, "negative variances are refused", lambda: ga.cov_nearest(mk(xp, [[1.0, 0.0], [0.0, -1.0]])), name)
        ck.raises(ValueError, "matrices must be square", lambda: ga.nearcorr(mk(xp, np.ones((2, 3)))), name)
        # too few iterations are reported
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            ga.nearcorr(mk(xp, [[1.0, 2.0, 4.0], [2.0, 1.0, 0.25], [4.0, 0.25, 1.0]]), niter=1)
            ck.ok(len(w) >= 1, "results that did not converge come with a warning", name)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            ga.nearcorr(mk(xp, [[1.0, 0.5, 0.25], [0.5, 1.0, 0.25], [0.25, 0.25, 1.0]]), tol=1e-12)
            ck.ok(not w, "no warning for valid input", name)


def regular(ck, recs, method, name, xp, m):
    for r in recs:
        given = [np.array(qf(g, 1), float) for g in r["given"]]
        exp = [np.array(qf(g, 1), float) for g in r["result"]]
        if not any(len(g) for g in given) and r["lmax"] == -1:
            continue
        d = {"spectra": given, "lmax": r["lmax"], "method": method, "backend": name}
        cls = [mk(xp, g) for g in given]
        if m % 2:
            cls = [c if len(g) or i == 0 else None for i, (c, g) in enumerate(zip(cls, given))]
        kw = {} if method == "nearest" and m % 3 == 0 else {"method": method}
        if r["lmax"] >= 0:
            kw["lmax"] = r["lmax"]
        ck.traces += 1
        with ck.case("regularized_spectra", d):
            got = glass.regularized_spectra(cls, **kw)
            ok = len(got) == len(exp) and all(close(g, e, atol=1e-6) and nsname(g) == name for g, e in zip(got, exp))
            ck.ok(ok, "regularised spectra are the regularised matrices in the order of the input", lambda: {**d, "got": got, "expected": exp})
            ck.ok(all(c is None or same(c, g) for c, g in zip(cls, given)), "input spectra are left alone", d)


def posdef(ck, by):
    """Definiteness of lists of spectra against the eigenvalues they were built from."""
    q = ck.quick
    for n, es in sorted(by.items()):
        pos = [e for e in es if min(e["w"]) > 0]
        neg = [e for e in es if min(e["w"]) < 0]
        if not pos or not neg:
            continue
        for m in range(60 if q else 400):
            name, xp = BACKENDS[[0, 2][m % 2] if m % 20 else 1]
            k = 1 + m % 4
            mats = [pos[i]["A"] for i in ck.rng.integers(0, len(pos), k)]
            bad = m % 3 == 0
            if bad:
                mats[int(ck.rng.integers(k))] = neg[int(ck.rng.integers(len(neg)))]["A"]
            sc = 10.0 ** float(ck.rng.integers(-8, 8))
            cls = [mk(xp, [a[i, j] * sc for a in mats]) for i, j in [(i, i - o) for i in range(n) for o in range(i + 1)]]
            with ck.case("check_posdef_spectra", {"matrices": mats}):
                got = bool(glass.check_posdef_spectra(cls))
                ck.ok(got == (not bad), "definiteness agrees with the eigenvalues", {"matrices": mats, "got": got, "backend": name})


def bulk(ck):
    """Many fields and long spectra: known eigenvalues, and nearest matrices built from the conditions of the optimum."""
    q, rng = ck.quick, ck.rng

    def known(n):
        # correlation matrix on the boundary and a matrix of which it is the nearest
        r = int(rng.integers(1, n))
        v = rng.standard_normal((n, r))
        v /= np.linalg.norm(v, axis=1)[:, None]
        x = v @ v.T
        null = np.linalg.svd(v.T)[2][r:]
        s = int(rng.integers(1, n - r + 1))
        z = null[:s].T @ (rng.uniform(0.01, 0.5, s)[:, None] * null[:s])
        return x + np.diag(np.diag(z)) - z, x

    for m in range(6 if q else 40):
        name, xp = BACKENDS[m % 3]
        n = int(rng.choice([3, 6, 12, 30]))
        k = (1, 200, 1000)[m % 3] if n < 12 else 20
        Q_ = np.linalg.qr(rng.standard_normal((k, n, n)))[0]
        w = rng.uniform(-1, 3, (k, n))
        tol = float(rng.choice([0, 1e-3, 0.1]))
        a = Q_ @ (w[:, :, None] * np.swapaxes(Q_, 1, 2))
        a = (a + np.swapaxes(a, 1, 2)) / 2
        top = w.max(1)
        sel = top > 0
        a, w, Q_, top = a[sel], w[sel], Q_[sel], top[sel]
        wc = np.maximum(w, tol * top[:, None]) if tol else np.maximum(w, 0)
        e = Q_ @ (wc[:, :, None] * np.swapaxes(Q_, 1, 2))
        det = {"n": n, "matrices": len(a), "rtol": tol, "backend": name}
        with ck.case("cov_clip", det, timeout=60):
            got = npa(ga.cov_clip(mk(xp, a), **({"rtol": tol} if tol else {})))
            ck.traces += len(a)
            ck.ok(close(got, e, atol=1e-10), "clipping replaces eigenvalues below the threshold and nothing else", lambda: {**det, "off": float(np.abs(got - e).max())})
            for unit in (1e-13, 1e9):
                got = npa(ga.cov_clip(mk(xp, a * unit), **({"rtol": tol} if tol else {}))) / unit
                ck.ok(close(got, e, atol=1e-10), "clipping replaces eigenvalues below the threshold and nothing else", lambda: {**det, "unit": unit, "off": float(np.abs(got - e).max())})
    for m in range(6 if q else 40):
        name, xp = BACKENDS[[0, 2][m % 2]]
        n = int(rng.choice([5, 8, 12]))
        k = (1, 20, 60)[m % 3]
        A, X = (np.array(t) for t in zip(*[known(n) for _ in range(k)]))
        s = 10 ** (rng.uniform(-2, 1, (k, n)) + [0, -7, 5][m // 2 % 3])  # also in small and large units
        S = s[:, :, None] * s[:, None, :]
        det = {"n": n, "matrices": k, "backend": name}
        with ck.case("nearcorr of a stack", det, timeout=200), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            y = npa(ga.nearcorr(mk(xp, A), niter=4000))
            ck.traces += k
            ck.ok(bool(np.allclose(y, X, rtol=0, atol=2e-5)), "nearcorr is the nearest correlation matrix", lambda: {**det, "off": float(np.abs(y - X).max())})
            c = npa(ga.cov_nearest(mk(xp, A * S), niter=4000))
            ck.ok(bool(np.allclose(c / S, X, rtol=0, atol=2e-5)), "cov_nearest keeps the diagonal and is nearest in correlation", lambda: {**det, "off": float(np.abs(c / S - X).max())})
    # many fields, long spectra
    for m in range(4 if q else 24):
        name, xp = BACKENDS[[0, 2][m % 2]]
        n, L = int(rng.choice([4, 7])), int(rng.choice([50, 300]))
        Q_ = np.linalg.qr(rng.standard_normal((L, n, n)))[0]
        w = rng.uniform(-0.2, 2, (L, n))
        w[:, 0] = 1.0
        a = Q_ @ (w[:, :, None] * np.swapaxes(Q_, 1, 2)) / (1 + np.arange(L))[:, None, None]
        e = Q_ @ (np.maximum(w, 0)[:, :, None] * np.swapaxes(Q_, 1, 2)) / (1 + np.arange(L))[:, None, None]
        idx = [(i, i - o) for i in range(n) for o in range(i + 1)]
        det = {"fields": n, "lmax": L - 1, "backend": name}
        with ck.case("regularized_spectra", det, timeout=60):
            got = glass.regularized_spectra([mk(xp, a[:, i, j]) for i, j in idx], method="clip")
            ck.traces += 1
            ck.ok(len(got) == len(idx) and all(close(g, e[:, i, j], atol=1e-10) for g, (i, j) in zip(got, idx)), "regularised spectra are the regularised matrices in the order of the input", det)
            ck.ok(bool(glass.check_posdef_spectra([mk(xp, a[:, i, j]) for i, j in idx])) == bool(w.min() > 0), "definiteness agrees with the eigenvalues", det)
            ok = Q_ @ (np.abs(w)[:, :, None] * np.swapaxes(Q_, 1, 2))
            ck.ok(bool(glass.check_posdef_spectra([mk(xp, ok[:, i, j]) for i, j in idx])), "definiteness agrees with the eigenvalues", det)
            l = int(rng.integers(L))
            ok[l] -= 2 * np.abs(w[l]).max() * np.outer(Q_[l, :, 1], Q_[l, :, 1])
            ck.ok(not bool(glass.check_posdef_spectra([mk(xp, ok[:, i, j]) for i, j in idx])), "definiteness agrees with the eigenvalues", {**det, "spoiled": l})


def run(ck):
    q = ck.quick
    eigs = ["<<3>>", "<<0>>", "<<-1,2>>", "<<0,3>>", "<<1,4>>", "<<-1,0,2>>", "<<1,2,3>>", "<<-2,-1,3>>", "<<1,1,4>>", "<<-1,1,8>>", "<<0,0,0>>", "<<-1,1,2,4>>", "<<1,2,2,3>>"]
    mir = ["<<1,2>>", "<<1,1>>", "<<1,-3>>", "<<1,2,2>>", "<<1,-1,1>>", "<<0,1,2>>", "<<1,0,-1>>", "<<1,1,1,1>>", "<<1,1,-1,3>>"] + ([] if q else ["<<2,3>>", "<<1,-1,2>>", "<<2,0,1>>", "<<0,1,1,0>>"])
    tols = [Fraction(0), Fraction(1, 4), Fraction(1, 10)]
    fp = ck.tlc_bg("Psd", {"Eigs": "{" + ", ".join(eigs) + "}", "Mirrors": "{" + ", ".join(mir) + "}", "Depth": 2,
                           "Tols": "<<" + ", ".join(f"<<{t.numerator},{t.denominator}>>" for t in tols) + ">>"},
                   invariants=["Orthogonal", "Symmetric", "Eigen", "Emit"])
    u2 = "{<<<<1,1>>,<<0,1>>>>, <<<<0,1>>,<<1,1>>>>, <<<<3,5>>,<<4,5>>>>, <<<<-3,5>>,<<4,5>>>>, <<<<4,5>>,<<-3,5>>>>, <<<<-1,1>>,<<0,1>>>>}"
    u4 = "{<<<<1,1>>,<<0,1>>,<<0,1>>>>, <<<<0,1>>,<<1,1>>,<<0,1>>>>, <<<<1,3>>,<<2,3>>,<<2,3>>>>, <<<<2,3>>,<<-1,3>>,<<2,3>>>>}"
    cs = "{<<0,1>>, <<1,20>>, <<1,4>>}"
    fn = [ck.tlc_bg("NearCorr", {"N": "{2, 3}", "Units": u2, "VMax": 5, "Cs": cs}, invariants=["UnitDiag", "Kernel", "Away", "Emit"]),
          ck.tlc_bg("NearCorr", {"N": "{4}", "Units": u4, "VMax": 2 if q else 3, "Cs": cs}, invariants=["UnitDiag", "Kernel", "Away", "Emit"], name="NearCorr-4")]
    table = fp.result()
    ck.sample(table[len(table) // 2])
    by = clip(ck, table, [float(t) for t in tols])
    pairs = {}
    for f in fn:
        seen = set()
        for r in f.result():
            k = json.dumps(r)
            if k not in seen:
                seen.add(k)
                pairs.setdefault(len(r["x"]), []).append(r)
    for es in pairs.values():
        ck.rng.shuffle(es)
    ck.sample(pairs[3][0])
    # lists of spectra
    F = Fraction
    jobs = []
    for n in (2, 3):
        for method in ("clip", "nearest"):
            if method == "clip":
                pick = [e for e in by[n] if min(e["w"]) < 0][-1:] + [e for e in by[n] if min(e["w"]) > 0][-1:]
                tab = [(FM(e["a"]), FM(e["clip"][0])) for e in pick]
                # nothing known of the last field
                small = [e for e in by[n - 1] if e["top"] > 0][0]
                tab += [([[*r, F(0)] for r in FM(small["a"])] + [[F(0)] * n], [[*r, F(0)] for r in FM(small["clip"][0])] + [[F(0)] * n])]
            else:
                e = next(p for p in pairs[n] if p["a"] != p["x"])
                s = [F(2), F(1), F(1, 2)][:n]
                sc = lambda x: [[v * s[i] * s[j] for j, v in enumerate(r)] for i, r in enumerate(x)]  # noqa: E731
                tab = [(sc(FM(e["a"])), sc(FM(e["x"])))]
                e1 = next(p for p in pairs[2] if p["a"] != p["x"]) if n == 3 else {"a": [[[3, 1]]], "x": [[[3, 1]]]}
                tab += [([[*r, F(0)] for r in FM(e1["a"])] + [[F(0)] * n], [[*r, F(0)] for r in FM(e1["x"])] + [[F(0)] * n])]
                tab += [([[F(0)] * n] + [[F(0), *r] for r in FM(e1["a"])], [[F(0)] * n] + [[F(0), *r] for r in FM(e1["x"])])]
            tx = "<<" + ", ".join(f"[a |-> {rat(a)}, r |-> {rat(r)}]" for a, r in tab) + ">>"
            jobs.append((method, ck.tlc_bg("Regular", {"Table": tx, "KMax": 2 if q or n == 3 else 3, "Name": f'"{method}{n}"'},
                                           invariants=["Faithful", "Emit"], name=f"Regular-{method}-{n}")))
    nearest(ck, pairs)
    posdef(ck, by)
    bulk(ck)
    for method, f in jobs:
        recs = f.result()
        ck.rng.shuffle(recs)
        ck.sample(recs[0], cap=10)
        for bi, (name, xp) in enumerate(BACKENDS):
            part = recs[bi :: 3][: (150 if q else 1500) if xp is not JX else 4]
            for m, r in enumerate(part):
                regular(ck, [r], method, name, xp, m)
    for name, xp in BACKENDS:
        one = [mk(xp, [1.0, 2.0])]
        ck.raises(ValueError, "unknown methods are refused", lambda: glass.regularized_spectra(one, method="magic"), name)
        with ck.case("regularized_spectra", name):
            # the relative tolerance of clipping is passed on
            got = glass.regularized_spectra([mk(xp, [4.0]), mk(xp, [-1.0]), mk(xp, [0.0])], method="clip", rtol=0.25)
            ck.ok(close(got[0], [4.0]) and close(got[1], [1.0]) and close(got[2], [0.0]), "tolerances are passed on", got)


main("C11", run)
