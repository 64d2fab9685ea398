"""C12: spectra on disk (SpectraFiles.tla)."""
from vf import *  # noqa: F403

SPECIAL = [0.0, -0.0, np.inf, -np.inf, np.nan, 5e-324, 1.7976931348623157e308, -1e-308, 1 / 3, np.pi * 1e15]


def values(lens, k, v, dtype=float):
    out = []
    for i, n in enumerate(lens):
        a = np.array([(k * 7919 + v * 104729 + i * 101 + j) * 0.37 - 50 for j in range(n)], dtype=float)
        if dtype is float and n and (i + v) % 2 == 0:
            a[(i + v) % n] = SPECIAL[(k + i + v) % len(SPECIAL)]
        if dtype is np.complex128:
            a = a - 1j * a[::-1] / 3
        elif dtype is np.int64:
            a = a.astype(dtype) + 2**60
        out.append(a.astype(dtype))
    return out


def eq(got, exp):
    return (len(got) == len(exp) and all(np.asarray(g).shape == e.shape and same(g, e)
            and np.array_equal(np.signbit(npa(g).real), np.signbit(e.real)) for g, e in zip(got, exp)))


def names(d, m):
    p = d / f"run{m}"
    p.mkdir()
    return {1: p / "one.npz", 2: str(p / "two.npz") if m % 2 else p / "two.more.npz", 3: p / "three"}


def run(ck):
    q = ck.quick
    lists = [[3, 3, 3], [2, 0, 5], [4], [0, 1, 0, 2, 3, 0], [1, 2, 0]] if not q else [[3, 3, 3], [2, 0, 5], [4], [0, 1, 0]]
    recs = ck.tlc("SpectraFiles", {"Files": {1, 2}, "Lists": lists, "Depth": 4 if q else 5},
                  invariants=["Latest", "Emit"], properties=["Stable"])
    ck.rng.shuffle(recs)
    ck.sample(recs[0])
    for m, r in enumerate(recs[: 2500 if q else 40000]):
        d = ck.tmp / "files"
        d.mkdir(exist_ok=True)
        fn = names(d, m)
        dt = [float, float, np.float32, np.int64][m % 4] if m % 5 else np.complex128
        mem = {k: values(s, k, 0, dt) for k, s in enumerate(lists, 1)}
        if m % 7 == 0:   # non-contiguous spectra
            mem = {k: [np.repeat(x, 2)[::2] for x in v] for k, v in mem.items()}
        held = []
        ck.traces += 1
        det = {"log": r["log"], "dtype": str(dt), "lists": lists}
        with ck.case("save and load", det):
            for e in r["log"]:
                f, k = e["f"], e["k"]
                if e["op"] == "save":
                    before = [x.copy() for x in mem[k]]
                    arg = mem[k] if m % 3 else tuple(mem[k])
                    glass.save_cls(fn[f], arg)
                    ck.ok(eq(mem[k], before) and len(mem[k]) == len(before), "saving does not alter what was passed in", det)
                elif e["op"] == "load":
                    got = glass.load_cls(fn[f])
                    held.append(got)
                    ck.ok(eq(got, values(lists[k - 1], k, e["v"], dt)), "loading gives the list last saved under the name",
                          lambda: {**det, "got": got, "expected": values(lists[k - 1], k, e["v"], dt)})
                elif e["op"] == "edit":
                    for x, y in zip(mem[k], values(lists[k - 1], k, e["v"], dt)):
                        x[...] = y
                elif e["op"] == "spoil":
                    for x in held[f - 1]:
                        if x.size:
                            x[...] = 77
                    for i, h in enumerate(held):
                        hh = r["held"][i]
                        if i != f - 1 and not any(s["op"] == "spoil" and s["f"] == i + 1 for s in r["log"]):
                            ck.ok(eq(h, values(lists[hh["k"] - 1], hh["k"], hh["v"], dt)), "lists loaded are separate", det)
                else:
                    glass.save_cls(fn[f], held[k - 1])
            for i, h in enumerate(held):
                hh = r["held"][i]
                if not hh["dirty"]:
                    ck.ok(eq(h, values(lists[hh["k"] - 1], hh["k"], hh["v"], dt)), "lists loaded earlier keep their values", det)
        shutil.rmtree(d)
    # long lists, recorded and validated by TLC
    lines = []
    d = ck.tmp / "files"
    d.mkdir()
    fn = {1: d / "a.npz", 2: d / "b.npz", 3: d / "c.npz", 4: d / "d.npz"}
    lens_of = [lambda n: ck.rng.integers(0, 6, n), lambda n: np.zeros(n, int), lambda n: np.r_[np.zeros(n - 1, int), 4],
               lambda n: np.r_[3, np.zeros(n - 1, int)], lambda n: np.arange(n) % 7, lambda n: np.full(n, 5)]
    for m in range(60 if q else 400):
        f = 1 + int(ck.rng.integers(4))
        n = int(ck.rng.choice([1, 2, 3, 10, 55, 210]))
        v = [ck.rng.integers(-1000, 1000, k) for k in lens_of[m % len(lens_of)](n)]
        lines.append({"ev": "save", "f": f, "v": [x.tolist() for x in v]})
        with ck.case("save and load", {"lengths": [len(x) for x in v]}):
            glass.save_cls(fn[f], [x.astype(float) for x in v])
        for g in range(1, 5):
            if fn[g].exists():
                with ck.case("load", {"file": g}):
                    lines.append({"ev": "load", "f": g, "v": [np.asarray(x).astype(int).tolist() for x in glass.load_cls(fn[g])]})
    ck.validate("SpectraFilesTrace", lines)
    # long spectra and other arrays
    for name, xp in BACKENDS:
        with ck.case("save and load", name):
            v = [ck.rng.normal(size=n) for n in (10001, 1, 0, 35000, 5000, 70000, 2)]
            glass.save_cls(fn[1], [mk(xp, x) for x in v])
            ck.ok(eq(glass.load_cls(fn[1]), v), "loading gives the list last saved under the name", name)
    with ck.case("suffix"):
        glass.save_cls(d / "plain", [np.arange(3.0)])
        ck.ok(eq(glass.load_cls(d / "plain.npz"), [np.arange(3.0)]), "the suffix is added", None)


main("C12", run)
