"""C01: the order of two-point spectra (Spectra.tla, SpectraTrace.tla)."""
import math

from vf import *  # noqa: F403


def content(rec, xp):
    return [mk(xp, [100 * (k + 1) + l + 1 for l in range(m)]) for k, m in enumerate(rec["len"])]


def replay(ck, rec, name, xp):
    n, order = rec["n"], [tuple(p) for p in rec["order"]]
    d = {"n": n, "len": rec["len"], "backend": name}
    ck.traces += 1
    with ck.case("order of spectra", d):
        cls = content(rec, xp)
        got = list(glass.enumerate_spectra(cls))
        ck.ok([(int(a), int(b)) for a, b, _ in got] == order, "enumerate_spectra pairs", {**d, "got": got})
        ck.ok(all(same(c, cls[k]) for k, (_, _, c) in enumerate(got)), "enumerate_spectra entries", d)
        ck.ok(glass.nfields_from_nspectra(len(cls)) == n, "nfields_from_nspectra", d)
        idx = glass.spectra_indices(n, xp=xp)
        ck.ok(nsname(idx) == name and npa(idx).shape == (len(order), 2)
              and [tuple(r) for r in npa(idx).tolist()] == order, "spectra_indices", d)
        h = glass.glass_to_healpix_spectra(cls)
        ck.ok(len(h) == len(cls) and all(same(h[q], cls[k - 1]) for q, k in enumerate(rec["tohp"])),
              "glass_to_healpix_spectra", d)
        b = glass.healpix_to_glass_spectra(cls)
        ck.ok(len(b) == len(cls) and all(same(b[q], cls[k - 1]) for q, k in enumerate(rec["fromhp"])),
              "healpix_to_glass_spectra", d)
    for r in rec["rag"]:
        lmax = None if r["lmax"] < 0 else r["lmax"]
        dd = {**d, "lmax": lmax}
        with ck.case("spectra by pair", dd):
            cls = content(rec, xp)
            for i in range(n):
                for j in range(n):
                    g = glass.getcl(cls, i, j, lmax)
                    ck.ok(close(g, np.asarray(r["cl"][i][j], float)) and nsname(g) == name,
                          "getcl", lambda: {**dd, "i": i, "j": j, "got": g})
            if n:
                c = glass.cov_from_spectra(cls, lmax=lmax)
                e = np.asarray(r["cov"], float).reshape(len(r["cov"]), n, n)
                ck.ok(close(c, e) and nsname(c) == name, "cov_from_spectra", lambda: {**dd, "got": c, "expected": e})


def run(ck):
    recs = ck.tlc("Spectra", {"MaxF": 9 if ck.quick else 12, "RagF": 2, "Lens": "{0, 1, 2, 3}" if ck.quick else "{0, 1, 2, 3, 5}",
                              "LMaxs": "{-1, 0, 1, 2, 4}"},
                  invariants=["CountOK", "FormulaOK", "Bijective", "HPInverse", "Symmetric", "Emit"],
                  properties=["AppendOnly"])
    seen = set()
    for rec in recs:
        key = (rec["n"], tuple(rec["len"]) if rec["n"] <= 2 else rec["n"])
        if key in seen:  # beyond the ragged part, one list per number of fields
            continue
        seen.add(key)
        if rec["n"] > 2:
            rec["rag"] = []
        for name, xp in BACKENDS:
            if xp is JX and len(seen) % 8:
                continue
            replay(ck, rec, name, xp)
        ck.sample({k: rec[k] for k in ("n", "order", "len")})

    # larger lists, recorded from the library and judged by TLC
    ev = []
    ms = set(range(0, 3000 if ck.quick else 20000))
    for n in (100, 181, 300, 999, 1000, 1414, 2000, 10000, 30000):
        ms |= {n * (n + 1) // 2 + k for k in (-2, -1, 0, 1, 2)}
    for m in sorted(ms):
        with ck.case("nfields_from_nspectra", m):
            try:
                r = glass.nfields_from_nspectra(m)
                r = int(r) if isinstance(r, (int, np.integer)) else -9
            except ValueError:
                r = -1
            ev.append({"op": "nfields", "m": m, "n": r, "hint": math.isqrt(2 * m)})
    for n in (13, 20, 45, 64, 100, 150, 257, 400) if ck.quick else (*range(13, 130, 9), 257, 400, 513, 700):
        m = n * (n + 1) // 2
        with ck.case("long lists", n):
            ents = list(range(m))
            prs = [[int(i), int(j)] for i, j, _ in glass.enumerate_spectra(ents)]
            ck.ok([e for _, _, e in glass.enumerate_spectra(ents)] == ents, "enumerate_spectra keeps entries", n)
            for s in range(0, m, 4000):
                ev.append({"op": "pairs", "start": s, "pairs": prs[s : s + 4000]})
            ck.ok(len(prs) == m, "enumerate_spectra keeps the number of entries", n)
            idx = npa(glass.spectra_indices(n, xp=NP)).tolist()
            for s in range(0, m, 4000):
                ev.append({"op": "pairs", "start": s, "pairs": idx[s : s + 4000]})
            ck.ok(len(idx) == m, "spectra_indices keeps the number of entries", n)
        with ck.case("HEALPix order of long lists", n):
            if n <= (100 if ck.quick else 150):
                hp = glass.glass_to_healpix_spectra(ents)
                back = glass.healpix_to_glass_spectra(hp)
                back2 = glass.glass_to_healpix_spectra(glass.healpix_to_glass_spectra(ents))
                ev.append({"op": "perm", "n": n, "to": hp, "back": back, "pair": [prs[k] for k in hp]})
                ev.append({"op": "perm", "n": n, "to": hp, "back": back2, "pair": [prs[k] for k in hp]})
        for _ in range(30):
            i, j = (int(v) for v in ck.rng.integers(0, n, 2))
            ln, lmax = int(ck.rng.integers(0, 5)), [None, 0, 1, 3, 6][int(ck.rng.integers(5))]
            with ck.case("getcl of long lists", (n, i, j)):
                class Rec(list):
                    pass
                cls = _Lazy(m, ln)
                g = npa(glass.getcl(cls, i, j, lmax))
                k = int(g[0]) if g.size and ln else (cls.last if cls.last is not None else -1)
                ev.append({"op": "getcl", "i": i, "j": j, "got": k, "len": int(g.shape[0]),
                           "explen": ln if lmax is None else lmax + 1})
    ck.validate("SpectraTrace", ev)
    # lists that no number of fields explains are refused by every consumer
    for m in [2, 4, 5, 7, 8, 9, 11, 14, 16, 20, 22, 27, 44, 46, 5049, 5051]:
        for fn in (glass.glass_to_healpix_spectra, glass.healpix_to_glass_spectra):
            ck.raises(ValueError, f"{fn.__name__} refuses a list of wrong length", lambda: fn([NP.zeros(1)] * m), m)
        for name, xp in BACKENDS:
            if m < 50 and (xp is not JX or m < 6):
                ck.raises(ValueError, "cov_from_spectra refuses a list of wrong length",
                          lambda: glass.cov_from_spectra([mk(xp, [1.0])] * m), m)


class _Lazy:
    """A list of m spectra holding their own index, that remembers the entry taken."""

    def __init__(self, m, ln):
        self.m, self.ln, self.last = m, ln, None

    def __len__(self):
        return self.m

    def __getitem__(self, k):
        k = int(k)
        if not 0 <= k < self.m:
            raise IndexError
        self.last = k
        return NP.full(self.ln, float(k))


main("C01", run)
