"""C13: catalogues (Catalog.tla)."""
import fitsio

from vf import *  # noqa: F403


class Stop_(Exception):
    pass


def columns(schema, at, k):
    i = np.arange(at, at + k)
    c = {"RA": i * 1.25 - 7, "ID": i.astype(np.int64) * 3_000_000_019}
    if schema % 4 == 1:
        c["SHEAR"] = np.stack([i * 0.5, -i * 0.25], axis=-1).reshape(k, 2)
        c["N"] = i.astype(np.int16)
    elif schema % 4 == 2:
        c["NAME"] = np.array([f"g{v:05d}" for v in i], dtype="<U6")
        c["OK"] = i % 2 == 0
        c["W"] = i.astype(np.float32) / 3
    elif schema % 4 == 3:
        c["W"] = np.where(i % 3 == 0, np.inf, np.where(i % 3 == 1, np.nan, -0.0))
    return c


def table(c, perm=False):
    names = list(c)
    if perm:
        names = names[::-1]
    a = np.zeros(len(c["RA"]), dtype=[(n, c[n].dtype, c[n].shape[1:]) for n in names])
    for n in names:
        a[n] = c[n]
    return a


def eqcol(g, e):
    if e.dtype.kind in "US":
        return [str(v).strip() for v in g.tolist()] == e.tolist()
    return g.shape == e.shape and same(g, e) and g.dtype.kind == e.dtype.kind and g.dtype.itemsize == e.dtype.itemsize


def content(fn):
    with fitsio.FITS(str(fn)) as h:
        return [(x.get_extname(), None if x.get_exttype() == "IMAGE_HDU" else x.read()) for x in h]


def judge(ck, fn, ids, schema, ext, wrote, det):
    hd = content(fn)
    tabs = [(n, t) for n, t in hd if t is not None]
    exp = {n: np.concatenate([columns(schema, i, 1)[n] for i in ids]) if ids else None for n in columns(schema, 0, 1)}
    if not ck.ok(len(tabs) == (1 if wrote else 0), "one table per catalogue", {**det, "extensions": [n for n, _ in hd]}):
        return
    if not wrote:
        return
    n, t = tabs[0]
    ck.ok(n == (ext or ""), "the table has the name requested", {**det, "name": n, "expected": ext})
    ck.ok(len(t) == len(ids), "every row of every write", {**det, "rows": len(t), "expected": len(ids)})
    if len(t) == len(ids):
        ck.ok(set(t.dtype.names) == set(exp), "columns matched by name", {**det, "columns": t.dtype.names})
        if ids:
            bad = [c for c in exp if c not in t.dtype.names or not eqcol(t[c], exp[c])]
            ck.ok(not bad, "rows in the order written with their values", lambda: {
                **det, "column": bad[0], "got": t[bad[0]] if bad[0] in t.dtype.names else None, "expected": exp[bad[0]]})


class Session:
    """A catalogue context that can be entered and left step by step."""

    def __init__(self, fn, ext, m):
        kw = {} if ext is None and m % 2 else {"ext": ext}
        self.cm = glass.write_catalog(fn, **kw)
        self.out = self.cm.__enter__()
        self.writes, self.m = 0, m

    def leave(self, exc):
        if not exc:
            self.cm.__exit__(None, None, None)
            return True
        kind = [Stop_, OSError, RuntimeError, KeyboardInterrupt, ValueError, KeyError][self.m % 6]
        e = kind("between writes")
        try:
            swallowed = self.cm.__exit__(kind, e, None)
        except kind as x:
            return x is e
        return not swallowed


def do(out, form, c):
    if form == "kw":
        out.write(**c)
    elif form == "perm":
        out.write(**{n: c[n] for n in list(c)[::-1]})
    elif form == "rec":
        out.write(table(c))
    elif form == "recperm":
        out.write(table(c, perm=True))
    else:   # both in the same call: structured rows first
        k = len(c["RA"]) // 2
        out.write(table({n: v[:k] for n, v in c.items()}), **{n: v[k:] for n, v in c.items()})


def run(ck):
    q = ck.quick
    jobs = [ck.tlc_bg("Catalog", {"Files": {1}, "Rows": "{0, 1, 3}", "Forms": '{"kw", "perm", "rec", "both"}', "Depth": 5 if q else 6},
                      invariants=["Ordered", "Disjoint", "Session", "Emit"]),
            ck.tlc_bg("Catalog", {"Files": {1, 2}, "Rows": "{2}", "Forms": '{"kw", "recperm"}', "Depth": 6 if q else 7},
                      invariants=["Ordered", "Disjoint", "Session", "Emit"], name="Catalog-2")]
    m = 0
    for j, f in enumerate(jobs):
        recs = f.result()
        ck.rng.shuffle(recs)
        ck.sample(recs[0])
        for r in recs[: (900 if q else 12000)]:
            m += 1
            d = ck.tmp / "cat"
            d.mkdir()
            fn = {1: d / "one.fits", 2: str(d / "Two.Fits")}
            exts = [None, ["CATALOG", "cat", "SHAPES"][m % 3]]
            schema = m
            nf = len(r["files"])
            det = {"log": r["log"], "schema": schema % 4, "ext": exts[1]}
            ck.traces += 1
            sess = {}
            with ck.case("write_catalog", det):
                for e in r["log"]:
                    if e["op"] == "open":
                        sess[e["f"]] = Session(fn[e["f"]], exts[e["x"]], m)
                    elif e["op"] in ("close", "raise"):
                        ok = sess.pop(e["f"]).leave(e["op"] == "raise")
                        ck.ok(ok, "exceptions are passed on", det)
                        content(fn[e["f"]])
                    elif e["op"] == "refuse":
                        ck.raises(Exception, "unknown columns are refused", lambda e=e: sess[e["f"]].out.write(NOT_THERE=np.arange(1.0)), det)
                        signal.setitimer(signal.ITIMER_REAL, 60)
                    else:
                        c = columns(schema, e["at"], e["k"])
                        before = {n: v.copy() for n, v in c.items()}
                        do(sess[e["f"]].out, e["op"], c)
                        ck.ok(all(same(c[n], before[n]) if c[n].dtype.kind not in "U" else c[n].tolist() == before[n].tolist() for n in c),
                              "columns are left alone", det)
                for k in range(1, nf + 1):
                    ids = r["files"][k - 1]
                    if ids == [0]:
                        ck.ok(not pathlib.Path(fn[k]).exists(), "no other file is created", det)
                        continue
                    judge(ck, fn[k], ids, schema, exts[r["ext"][k - 1]], r["wrote"][k - 1], {**det, "file": k})
                ck.ok(len(list(d.iterdir())) == sum(i != [0] for i in r["files"]), "no other file is created", det)
            for s in sess.values():
                with contextlib.suppress(Exception):
                    s.leave(False)
            shutil.rmtree(d)
    # many and large writes
    d = ck.tmp / "cat"
    d.mkdir()
    for m, sizes in enumerate([[1] * 120, [100_000, 0, 1, 70_000], [0, 0, 5000], list(range(40))]):
        with ck.case("many writes", {"sizes": sizes[:5]}, timeout=120):
            fn = d / f"big{m}.fits"
            at = 1
            with glass.write_catalog(fn, ext=[None, "CATALOG"][m % 2]) as out:
                for i, k in enumerate(sizes):
                    do(out, ["kw", "perm", "rec", "recperm"][i % 4], columns(4, at, k))
                    at += k
            t = [t for _, t in content(fn) if t is not None]
            ck.traces += 1
            e = columns(4, 1, at - 1)
            ck.ok(len(t) == 1 and len(t[0]) == at - 1 and same(t[0]["ID"], e["ID"]) and same(t[0]["RA"], e["RA"]),
                  "rows in the order written with their values", {"sizes": sizes[:5]})
    # backends
    for name, xp in BACKENDS[:2]:
        with ck.case("write_catalog", name):
            with glass.write_catalog(d / "b.fits") as out:
                out.write(A=mk(xp, [1.0, 2.0]))
                out.write(A=mk(xp, [3.0]))
            ck.ok(same(content(d / "b.fits")[1][1]["A"], [1.0, 2.0, 3.0]), "rows in the order written with their values", name)


main("C13", run)
