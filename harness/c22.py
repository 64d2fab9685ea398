"""C22: the spectrum solver (Solver.tla, SolverTrace.tla, Pairing.tla)."""
from transformcl import cltocorr, corrtocl

from vf import *  # noqa: F403

import glass.grf as gg


class Scripted:
    """Transformation that answers as in the behaviour (all in terms of spectra)."""

    def __init__(self, r):
        self.cl, self.n = np.array(r["cl"], float), len(r["cl"])
        self.pad = r["par"]["pad"]
        self.gls = [np.array(qf(s["gl"], 1)) for s in r["seen"]]
        self.ans = r["seen"]
        self.init = np.array(r["par"]["init"], float)

    def find(self, x):
        g = corrtocl(np.asarray(x))[: self.n]
        for gl, a in zip(self.gls, self.ans):
            if np.all(np.abs(g - gl) <= 1e-9 * (1 + np.abs(gl))):
                return a
        return {"e": [1000 * int(c + 1) for c in self.cl], "d": 1, "tail": 0}

    def corr(self, other, x):
        a = self.find(x)
        v = np.concat([self.cl + np.array(a["e"]), np.full(len(x) - self.n, float(a["tail"]))])
        return cltocorr(v)

    def dcorr(self, other, x):
        return np.full(len(x), float(self.find(x)["d"]))

    def icorr(self, other, x):
        return cltocorr(self.init)


def replay(ck, recs, cltol, gltol):
    for m, r in enumerate(recs):
        par = r["par"]
        n = len(r["cl"])
        name, xp = BACKENDS[0] if m % 5 else BACKENDS[(m // 5) % 3]
        det = {"target": r["cl"], "parameters": par, "answers": r["seen"], "backend": name}
        kw = {"pad": par["pad"], "cltol": cltol, "gltol": gltol, "maxiter": par["maxiter"]}
        if par["mono"]:
            kw["monopole"] = float(par["mono"][0])
        cl = mk(xp, r["cl"])
        init = mk(xp, par["init"])
        if len(par["init"]) != n or m % 2:
            kw["initial"] = init
        if par["pad"] == 0 and m % 3:
            del kw["pad"]
        with ck.case("solution", det, timeout=30), np.errstate(all="ignore"):
            t = Scripted(r)
            res = gg.solve(cl, t, **kw) if m % 2 else gg.solve(cl, t, t, **kw)
            ck.traces += 1
            ck.ok(len(res) == 3, "solution, realised spectrum and status", det)
            gl, rl, info = res
            egl = np.array(qf(r["gl"], 1))
            erl = np.concat([np.array(r["cl"]) + np.array(r["tr"]["e"]), np.full(par["pad"], float(r["tr"]["tail"]))])
            ck.ok(close(gl, egl, rtol=1e-7, atol=1e-7), "solution after the iterations", lambda: {**det, "got": gl, "expected": egl})
            ck.ok(close(npa(rl)[:n], erl[:n], rtol=1e-7, atol=1e-7), "the realised spectrum is that of the solution", lambda: {**det, "got": rl, "expected": erl})
            ck.ok(int(info) == r["info"], "status", lambda: {**det, "got": info, "expected": r["info"], "iterations": r["it"]})
            ck.ok(nsname(gl) == nsname(rl) == name, "results are arrays of the backend", det)
            if par["mono"]:
                ck.ok(float(npa(gl)[0]) == float(par["mono"][0]), "the monopole is kept", det)
            ck.ok(same(cl, np.array(r["cl"], float)) and same(init, np.array(par["init"], float)), "the arguments are not changed", det)
            ck.clauses["iterations followed"] = ck.clauses.get("iterations followed", 0) + r["it"]


def relerr(d, x):
    with np.errstate(all="ignore"):
        q = np.where(d == 0, 0.0, d / np.where(d == 0, 1.0, x))
    return float(np.abs(q).max())


def observe(ck, K):
    """Real transformations: the state after 0, 1, 2, ... iterations."""
    lines = []
    for m in range(60 if ck.quick else 900):
        k = ("LL", "LN", "SS", "NN", "LL", "LL")[m % 6]
        n = int(ck.rng.choice([1, 2, 5, 12, 30]))
        lam = lambda: float(ck.rng.choice([1.0, 0.3, 2.0]))  # noqa: E731
        mkt = {"L": lambda: gg.Lognormal(lam()), "N": lambda: gg.Normal(), "S": lambda: gg.SquaredNormal(float(ck.rng.uniform(0.3, 0.95)), lam())}
        t1, t2 = mkt[k[0]](), mkt[k[1]]()
        if m % 2 and k[0] == k[1]:
            t2 = t1
        cl = 10 ** ck.rng.uniform(-3, 1.5) * ck.rng.uniform(0.2, 1, n) / (1 + np.arange(n)) ** ck.rng.uniform(0, 3)
        if m % 7 == 3:
            cl = cl * ck.rng.choice([-1, 1], n)
        kw = {"pad": int(ck.rng.choice([0, 1, n, 2 * n])), "cltol": float(ck.rng.choice([1e-5, 1e-12, 1e-2])), "gltol": float(ck.rng.choice([1e-5, 1e-13, 1e-2]))}
        mono = m % 4
        if mono == 1:
            kw["monopole"] = 0.0
        elif mono == 2:
            kw["monopole"] = 0.1
        if m % 5 == 1:
            kw["initial"] = ck.rng.uniform(0.5, 1.5, int(ck.rng.choice([1, n, n + 3]))) * cl.mean()
        det = {"t1": repr(t1), "t2": repr(t2), "cl": cl, **kw}
        with ck.case("solution", det, timeout=60), np.errstate(all="ignore"):
            steps, old = [], None
            for it in range(K + 1):
                gl, rl, info = gg.solve(cl.copy(), t1, t2, maxiter=it, **kw)
                ck.traces += 1
                pad = kw["pad"]
                real = npa(corrtocl(gg.corr(t1, t2, cltocorr(np.pad(gl, (0, pad))))))
                f = rl[:n] - cl
                if mono in (1, 2):
                    f[0] = 0
                err = relerr(f, cl)
                ok_real = bool(np.allclose(rl[:n], real[:n], rtol=1e-9, atol=1e-12 * np.nanmax(np.abs(real), initial=0), equal_nan=True)) and len(gl) == n
                conv = err <= kw["cltol"]
                if abs(err - kw["cltol"]) <= 1e-9 * kw["cltol"]:
                    conv = bool(info & 1)
                st = {"info": int(info), "real": ok_real, "conv": conv, "small": False, "tiny": False, "grew": False, "moved": False,
                      "mono": "monopole" not in kw or float(gl[0]) == kw["monopole"]}
                if old is not None:
                    d = gl - old[0]
                    rs = relerr(np.where(np.abs(d) <= 4e-16 * np.abs(gl), 0, d), old[0])
                    st["moved"] = not np.array_equal(gl, old[0], equal_nan=True)
                    st["small"] = rs <= kw["gltol"] * (1 + 1e-6) + 1e-13
                    st["tiny"] = rs < kw["gltol"] * (1 - 1e-6) - 1e-13
                    if not st["moved"] and steps[-1]["info"] > 0:
                        st["small"] = steps[-1]["small"]
                    st["grew"] = err > old[1] * (1 + 1e-9)
                elif "initial" in kw:
                    e = np.zeros(n)
                    e[: len(kw["initial"])] = kw["initial"][:n]
                    if "monopole" in kw:
                        e[0] = kw["monopole"]
                    ck.ok(same(gl, e), "a given initial solution is used", det)
                else:
                    e = npa(gg.compute(cl, t1, t2)).copy()
                    if "monopole" in kw:
                        e[0] = kw["monopole"]
                    ck.ok(bool(np.allclose(gl, e, rtol=1e-12, atol=0, equal_nan=True)), "the iteration starts from the band-limited solution", det)
                steps.append(st)
                old = (gl, err)
            lines.append({"steps": steps})
            # carrying on from an intermediate solution is the same as not stopping
            if kw.get("initial") is None and K > 1 and steps[0]["info"] == steps[1]["info"] == 0:
                g1 = gg.solve(cl, t1, t2, maxiter=1, **kw)[0]
                if np.all(np.isfinite(g1)):
                    a, b = gg.solve(cl, t1, t2, maxiter=1, **{**kw, "initial": g1}), gg.solve(cl, t1, t2, maxiter=2, **kw)
                    ck.ok(close(a[0], b[0], rtol=1e-9, atol=1e-13) and a[2] == b[2], "carrying on from an intermediate solution", lambda: {**det, "got": a, "expected": b})
    if not ck.validate("SolverTrace", lines):
        ck.clauses["statuses observed"] = sum(len(x["steps"]) for x in lines)


def lists(ck, recs):
    for r in recs:
        kinds = {"L": lambda m: gg.Lognormal(0.5 + 0.25 * m), "N": lambda m: gg.Normal()}
        fields = [kinds[f](m) for m, f in enumerate(r["fields"])]
        det = {"fields": r["fields"], "lengths": r["lens"]}
        if r["status"] == "refused":
            ck.raises(ValueError, "lists of the wrong length are refused", lambda: glass.solve_gaussian_spectra(fields, [np.ones(3)] * r["count"]), det)
            continue
        # some spectra cannot be solved, some have no monopole
        mode = [int(ck.rng.choice([0, 0, 0, 1, 2])) for _ in r["lens"]]
        cls = []
        for p, nn in enumerate(r["lens"]):
            c = 0.05 / (1 + p) / (1 + np.arange(nn)) * 10.0 ** -float(ck.rng.choice([0, 0, 2, 4, 6]))
            if mode[p] == 1 and nn:
                c[0] = 0.0
            if mode[p] == 2:
                c = 50 / (1 + p) / (1 + np.arange(nn)) * (-1) ** np.arange(nn)
            cls.append(c)
        name, xp = BACKENDS[0] if ck.rng.random() < 0.7 else BACKENDS[int(ck.rng.integers(3))]
        det = {**det, "cls": cls, "backend": name}
        with ck.case("list of spectra", det), np.errstate(all="ignore"):
            args = [mk(xp, c) for c in cls]
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                gls = glass.solve_gaussian_spectra(fields, args)
            ws = [str(w.message) for w in ws if "converge" in str(w.message)]
            ck.traces += 1
            ck.ok(len(gls) == len(r["out"]), "one Gaussian spectrum per spectrum", det)
            bad = []
            for p, (o, g) in enumerate(zip(r["out"], gls)):
                ck.ok(nsname(g) == name and same(args[p], cls[p]), "results are arrays of the backend and arguments stay", {**det, "position": p})
                if o["empty"]:
                    ck.ok(npa(g).shape == (0,) and g is not args[p], "empty spectra stay empty", {**det, "position": p})
                    continue
                e = gg.solve(cls[p], fields[o["i"]], fields[o["j"]], pad=2 * o["n"], monopole=0.0 if cls[p][0] == 0 else None)
                if e[2] == 0:
                    bad.append((o["i"], o["j"]))
                ck.ok(npa(g).shape == e[0].shape and bool(np.allclose(npa(g), e[0], rtol=1e-9, atol=1e-15, equal_nan=True)), "the pair of the position is solved", lambda: {**det, "position": p, "got": g, "expected": e[0]})
                if cls[p][0] == 0:
                    ck.ok(float(npa(g)[0]) == 0, "a vanishing monopole stays", {**det, "position": p})
            ck.ok(len(ws) == len(bad) and all(any(f"({i}, {j})" in w for w in ws) for i, j in bad), "a warning for every spectrum that did not converge", lambda: {**det, "warnings": ws, "expected": bad})
            ck.clauses["spectra without solution"] = ck.clauses.get("spectra without solution", 0) + len(bad)
            # the old name, for lognormal fields of one shift
            shift = float(ck.rng.choice([1.0, 0.4, 2.5]))
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                old = glass.lognormal_gls(args, shift) if shift != 1 else glass.lognormal_gls(args)
                new = glass.solve_gaussian_spectra([gg.Lognormal(shift)] * len(fields), args)
            ck.ok(len(old) == len(new) and all(same(a, npa(b)) for a, b in zip(old, new)), "lognormal spectra by the old name", lambda: {**det, "shift": shift, "got": old, "expected": new})


def bulk(ck):
    """Spectra as long as those of real surveys: what is solved is realised."""
    for m in range(4 if ck.quick else 30):
        n = int(ck.rng.choice([200, 500, 1000] if ck.quick else [200, 1000, 3000]))
        l = np.arange(n)
        t1 = gg.Lognormal(float(ck.rng.choice([1.0, 0.5])))
        t2 = t1 if m % 2 else gg.Lognormal(float(ck.rng.choice([1.0, 2.0])))
        cl = 10 ** ck.rng.uniform(-4, -2) * (1 + l / ck.rng.uniform(5, 50)) ** -ck.rng.uniform(1.5, 3)
        mono = (None, 0.0)[m // 2 % 2]
        kw = {"pad": int(ck.rng.choice([n, 2 * n])), "cltol": 1e-6}
        if mono is not None:
            kw["monopole"] = mono
        det = {"t1": repr(t1), "t2": repr(t2), "n": n, **kw, "cl": cl[:5]}
        with ck.case("solution", det, timeout=120), np.errstate(all="ignore"):
            gl, rl, info = gg.solve(cl.copy(), t1, t2, **kw)
            ck.traces += 1
            real = npa(corrtocl(gg.corr(t1, t2, cltocorr(np.pad(gl, (0, kw["pad"]))))))
            lo = 0 if mono is None else 1
            ck.ok(gl.shape == (n,) and rl.shape == (n + kw["pad"],), "solution, realised spectrum and status", det)
            ck.ok(bool(np.allclose(rl, real, rtol=1e-8, atol=1e-12 * cl.max())), "the realised spectrum is that of the solution", det)
            err = float(np.abs(real[lo:n] / cl[lo:] - 1).max())
            ck.ok(bool(info & 1) == (err <= 1e-6) or abs(err - 1e-6) < 1e-8, "status", {**det, "got": int(info), "error": err})
            ck.ok(err <= 1e-6 or info == 2 or info == 0, "converged", {**det, "error": err, "info": int(info)})
            ck.clauses["long spectra solved"] = ck.clauses.get("long spectra solved", 0) + int(info & 1)
            if mono is not None:
                ck.ok(float(gl[0]) == 0, "the monopole is kept", det)


def run(ck):
    q = ck.quick
    E1 = "{<<0>>, <<3>>, <<-2>>, <<1>>}"
    E2 = "{<<0, 0>>, <<3, -2>>, <<-1, 1>>, <<6, 1>>, <<0, 4>>, <<5, 0>>}"
    E3 = "{<<0, 0, 0>>, <<1, -2, 1>>, <<3, 0, -5>>, <<0, 7, 0>>, <<-4, 1, 1>>}"
    invs = ["BitOne", "BitTwo", "Status", "Within", "Decreasing", "MonopoleKept", "AsIs", "Realised", "Emit"]
    tol = {"ClTol": "<<1, 7>>", "GlTol": "<<29, 97>>"}
    base = {"Errs": f"<<{E1}, {E2}, {E3}>>", "Pads": {0, 2}, "MaxIters": {0, 1, 2}, "MaxHalf": 1, **tol}
    f1 = ck.tlc_bg("Solver", {**base, "Targets": "{<<4>>}", "Inits": "{<<5>>, <<3, 1>>, <<0>>}", "Slopes": "{1, -2, 0}", "Monopoles": "{<<>>}", "Pads": {0, 1}}, invariants=invs, name="Solver-1")
    f2 = ck.tlc_bg("Solver", {**base, "Targets": "{<<4, 8>>, <<0, 4>>}", "Inits": "{<<5>>, <<3, 6>>, <<4, 2, 7>>}", "Slopes": "{1, 2, -1, 0}", "Monopoles": "{<<>>, <<0>>, <<2>>}", "MaxIters": "0..5", "MaxHalf": 3},
                   invariants=invs, simulate=(2500 if q else 15000, 30), name="Solver-2")
    f3 = ck.tlc_bg("Solver", {**base, "Targets": "{<<4, 8, 5>>, <<0, 4, 6>>}", "Inits": "{<<5>>, <<3, 6>>, <<4, 2, 7>>, <<4, 2, 7, 1>>}", "Slopes": "{1, 2, -1}", "Monopoles": "{<<>>, <<0>>, <<3>>}", "MaxIters": "0..5", "MaxHalf": 3},
                   invariants=invs, simulate=(2500 if q else 15000, 30), name="Solver-3")
    p = ck.tlc("Pairing", {"MaxN": 2, "Lens": {0, 3, 6} if q else {0, 1, 3, 6}, "Kinds": '{"L", "N"}'}, invariants=["EveryPair", "AutoFirst", "Position", "Refused", "Emit"], properties=["Ends"])
    p += ck.tlc("Pairing", {"MaxN": 4, "Lens": {0, 1, 4}, "Kinds": '{"L", "N"}'}, invariants=["EveryPair", "AutoFirst", "Position", "Refused", "Emit"], simulate=(100 if q else 1000, 14), name="Pairing-sim")
    ck.rng.shuffle(p)
    lists(ck, p[: 200 if q else 3000])
    observe(ck, 4 if q else 7)
    bulk(ck)
    cltol, gltol = 1 / 7, 29 / 97
    for f, lim in ((f1, 6000), (f2, 4000), (f3, 4000)):
        recs = f.result()
        # one of every behaviour
        recs = list({json.dumps(r, sort_keys=True): r for r in recs}.values())
        ck.rng.shuffle(recs)
        # few behaviours that stop at once
        long = [r for r in recs if r["it"] > 0]
        short = [r for r in recs if r["it"] == 0]
        ck.sample({"behaviour": long[0]})
        replay(ck, short[: lim // 10] + long[: lim if q else 10 * lim], cltol, gltol)


main("C22", run)
