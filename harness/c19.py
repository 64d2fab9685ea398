"""C19: displacements on the sphere (Sphere.tla)."""
from vf import *  # noqa: F403

D = np.pi / 180
SHAPES = [(3, 4), (2,), (1,), (2, 2), (1, 2), (2, 1), (3, 2), (2, 3, 2), (0,), (0, 2), (2, 0)]


def ang(c):
    """Angle in [0, 2 pi) of an exact cosine and sine."""
    return math.atan2(c[1][0] / c[1][1], c[0][0] / c[0][1]) % (2 * np.pi)


def lat(c):
    return math.degrees(math.atan2(c[1][0] / c[1][1], c[0][0] / c[0][1]))


def vec(lon, lat):
    lon, lat = np.asarray(lon) * D, np.asarray(lat) * D
    return np.stack(np.broadcast_arrays(np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat) + 0 * lon), -1)


def rot(v, lon):
    """Rotate vectors about the axis by a longitude."""
    c, s = np.cos(lon * D), np.sin(lon * D)
    return np.stack([v[..., 0] * c - v[..., 1] * s, v[..., 0] * s + v[..., 1] * c, v[..., 2] + 0 * c], -1)


def check_move(ck, fn, what, mirror, recs, name, xp, q):
    a = np.array([lat(r["a"]) for r in recs])
    arc = np.array([ang(r["p"]) for r in recs])
    br = np.array([ang(r["q"]) for r in recs])
    T = np.array([qf(r["out"], 1) for r in recs])
    if mirror:
        T = T * [1, -1, 1]
    n = len(recs)

    def judge(got, lon0, idx, form, shape):
        glon, glat = got
        d = {"function": what, "backend": name, "form": form}
        if not ck.ok(nsname(glon) == name and nsname(glat) == name, "backend of positions", d):
            return
        gl, gb = np.broadcast_arrays(npa(glon), npa(glat))
        if not ck.ok(gl.shape == shape, "shape of positions", lambda: {**d, "got": gl.shape, "want": shape}):
            return
        ck.ok(bool(np.all(np.abs(gb) <= 90 + 1e-12)), "latitude in range", d)
        err = np.abs(vec(gl, gb) - rot(T[idx], lon0)).max(-1)
        bad = np.argwhere(~(err < 1e-12))
        ck.ok(not len(bad), what + " moves by the arc in the direction", lambda: {
            **d, "start lat": a[idx][tuple(bad[0])], "arc": arc[idx][tuple(bad[0])], "bearing": br[idx][tuple(bad[0])],
            "got": [gl[tuple(bad[0])], gb[tuple(bad[0])]], "bad": len(bad)})
    ck.traces += n
    lons = np.array([0.0, 45.0, -180.0, 180.0, 359.0, 720.25, -33.0])
    for form in ("complex", "pair", "broadcast", "negative arc", "single"):
        with ck.case(what, {"form": form, "backend": name}):
            lon0 = lons[np.arange(n) % len(lons)]
            idx = np.arange(n)
            al = arc * np.exp(1j * br)
            if form == "complex":
                judge(fn(mk(xp, lon0), mk(xp, a), mk(xp, al, complex)), lon0, idx, form, (n,))
                judge(fn(mk(xp, lon0[:12].reshape(3, 4)), mk(xp, a[:12].reshape(3, 4)), mk(xp, al[:12].reshape(3, 4), complex)),
                      lon0[:12].reshape(3, 4), idx[:12].reshape(3, 4), form, (3, 4))
            elif form == "pair":
                judge(fn(mk(xp, lon0), mk(xp, a), mk(xp, [al.real, al.imag])), lon0, idx, form, (n,))
                for sh in SHAPES:
                    i = ck.rng.integers(0, n, sh)
                    judge(fn(mk(xp, lon0[i]), mk(xp, a[i]), mk(xp, np.stack([al.real, al.imag])[:, i])), lon0[i], i, f"{form} {sh}", sh)
                    judge(fn(mk(xp, lon0[i]), mk(xp, a[i]), mk(xp, al[i], complex)), lon0[i], i, f"complex {sh}", sh)
            elif form == "negative arc":
                # the same place the other way round
                judge(fn(mk(xp, lon0), mk(xp, a), mk(xp, (arc - 2 * np.pi) * np.exp(1j * br), complex)), lon0, idx, form, (n,))
            elif form == "broadcast":
                # one latitude and displacement from many longitudes and back
                for j in range(0, n, 97 if q else 11):
                    l2 = lons[:, None]
                    sel = np.full((len(lons), 1), j)
                    judge(fn(mk(xp, l2), mk(xp, a[[j]]), mk(xp, al[[j]], complex)), l2, sel, form, (len(lons), 1))
            elif name == "numpy":
                for j in range(0, n, 53):
                    judge(fn(NP.asarray(30.0), NP.asarray(a[j]), NP.asarray(al[j])), np.asarray(30.0), np.asarray(j), form, ())
                    if what == "deflect":
                        judge(fn(30.0, float(a[j]), complex(al[j]), xp=NP), np.asarray(30.0), np.asarray(j), form, ())


def check_look(ck, recs, name, xp, q):
    a = np.array([lat(r["a"]) for r in recs])
    b = np.array([lat(r["p"]) for r in recs])
    g = np.degrees([ang(r["q"]) for r in recs])
    O = np.array([qf(r["out"], 1) for r in recs])
    n = len(recs)
    for lon0 in (0.0, -150.0, 300.0):
        for wrap in (0.0, -360.0):
            d = {"backend": name, "lon": lon0, "wrap": wrap}
            ck.traces += n
            with ck.case("displacement", d):
                args = [np.full(n, lon0), a, lon0 + g + wrap, b]
                got = glass.displacement(*[mk(xp, x) for x in args])
                s = npa(got)
                if not ck.ok(s.shape == (n,) and nsname(got) == name and s.dtype.kind == "c", "shape of displacement", d):
                    continue
                r = np.abs(s)
                e = s / np.where(r > 0, r, 1)
                G = np.stack([np.cos(r), np.sin(r) * e.real, np.sin(r) * e.imag], -1)
                err = np.abs(G - O).max(-1)
                bad = np.nonzero(~(err < 1e-12) | (r > np.pi + 1e-12))[0]
                ck.ok(not len(bad), "displacement is the arc and initial bearing", lambda: {
                    **d, "from lat": a[bad[0]], "to lat": b[bad[0]], "dlon": g[bad[0]], "got": s[bad[0]], "cos/north/east": O[bad[0]], "bad": len(bad)})
                # displacing by it arrives (also for opposite points: any bearing does)
                l2, b2 = glass.displace(mk(xp, args[0]), mk(xp, a), got)
                ck.ok(bool(np.all(np.abs(vec(npa(l2), npa(b2)) - vec(args[2], b)) < 1e-7)) and
                      bool(np.all((np.abs(vec(npa(l2), npa(b2)) - vec(args[2], b)).max(-1) < 1e-12) | (O[:, 0] < -0.999999))),
                      "displacing by the displacement arrives", d)
                # deflecting by the mirrored displacement arrives as well
                l2, b2 = glass.deflect(mk(xp, args[0]), mk(xp, a), mk(xp, np.conj(s), complex))
                ck.ok(bool(np.all((np.abs(vec(npa(l2), npa(b2)) - vec(args[2], b)).max(-1) < 1e-12) | (O[:, 0] < -0.999999))),
                      "deflecting by the mirrored displacement arrives", d)
    for sh in SHAPES:
        with ck.case("displacement of shapes", {"backend": name, "shape": sh}):
            i, j = ck.rng.integers(0, n, sh), ck.rng.integers(0, n, sh)
            got = glass.displacement(mk(xp, np.zeros(sh)), mk(xp, a[i]), mk(xp, g[j]), mk(xp, b[j]))
            want = npa(glass.displacement(NP.zeros(i.size), a[i].ravel(), g[j].ravel(), b[j].ravel()))
            ck.ok(np.shape(npa(got)) == sh and close(npa(got).ravel(), want), "displacement of shapes", {"backend": name, "shape": sh})
    # broadcasting: all pairs at once
    with ck.case("displacement of all pairs", {"backend": name}):
        k = 40
        j = ck.rng.permutation(n)[:k]
        got = glass.displacement(mk(xp, np.zeros((k, 1))), mk(xp, a[j][:, None]), mk(xp, g[j]), mk(xp, b[j]))
        one = np.array([[npa(glass.displacement(NP.zeros(1), a[[i1]], g[[i2]], b[[i2]]))[0] for i2 in j] for i1 in j])
        ck.ok(close(got, one), "displacement of all pairs", {"backend": name})


def roundtrip(ck, name, xp, q):
    """Displacements of every size, measured back."""
    n = 300 if q else 5000
    for scale in (3.14, 1.0, 1e-2, 1e-4, 1e-6, 1e-9):
        lon = ck.rng.uniform(-400, 400, n)
        la = np.degrees(np.arcsin(ck.rng.uniform(-1, 1, n)))
        la[: n // 10] = ck.rng.choice([89.999, -89.999, 0.0, 60.0], n // 10)
        al = ck.rng.uniform(0, scale, n) * np.exp(1j * ck.rng.uniform(0, 2 * np.pi, n))
        d = {"scale": scale, "backend": name}
        ck.traces += n
        with ck.case("round trip", d):
            l2, b2 = glass.displace(mk(xp, lon), mk(xp, la), mk(xp, al, complex))
            back = npa(glass.displacement(mk(xp, lon), mk(xp, la), l2, b2))
            ck.ok(bool(np.all(np.abs(back - al) < (1e-11 if scale > 2 else 1e-14))), "the displacement of a displaced position is the one applied",
                  lambda: {**d, "worst": float(np.max(np.abs(back - al)))})
            l3, b3 = glass.deflect(mk(xp, lon), mk(xp, la), mk(xp, np.conj(al), complex))
            ck.ok(bool(np.all(np.abs(vec(npa(l3), npa(b3)) - vec(npa(l2), npa(b2))) < 1e-13)), "deflecting mirrors displacing", d)
            # how far: independent measure by the chord
            ch = np.linalg.norm(vec(npa(l2), npa(b2)) - vec(lon, la), axis=-1)
            ck.ok(bool(np.all(np.abs(ch - 2 * np.sin(np.abs(al) / 2)) < 1e-13 + 0 * ch)), "great-circle distance", d)


def run(ck):
    q = ck.quick
    axis = "<<<<1,1>>,<<0,1>>>>, <<<<-1,1>>,<<0,1>>>>, <<<<0,1>>,<<1,1>>>>, <<<<0,1>>,<<-1,1>>>>"
    tri = lambda c, s, h: ", ".join(f"<<<<{i*c},{h}>>,<<{j*s},{h}>>>>, <<<<{i*s},{h}>>,<<{j*c},{h}>>>>" for i in (1, -1) for j in (1, -1))  # noqa: E731
    circles = ["{" + axis + ", " + tri(3, 4, 5) + "}"]
    if not q:
        circles.append("{" + axis + ", " + tri(5, 12, 13) + "}")
        circles.append("{" + axis + ", " + tri(8, 15, 17) + "}")
    for c in circles:
        recs = ck.tlc("Sphere", {"Circle": c}, invariants=["OnSphere", "Orthonormal", "Inverse", "Arrive", "Stay", "Emit"])
        ck.sample(recs[len(recs) // 3])
        ck.sample(recs[-10])
        mv, lk = [r for r in recs if r["op"] == "move"], [r for r in recs if r["op"] == "look"]
        for name, xp in BACKENDS:
            check_move(ck, glass.displace, "displace", False, mv, name, xp, q)
            check_move(ck, glass.deflect, "deflect", True, mv, name, xp, q)
            check_look(ck, lk, name, xp, q)
    for name, xp in BACKENDS:
        roundtrip(ck, name, xp, q)


main("C19", run)
