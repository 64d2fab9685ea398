"""C18: galaxy shears (Shear.tla)."""
import healpix

from vf import *  # noqa: F403

BLOCK = 10_000


def positions(ck, nside, ipix, m):
    """Positions inside given pixels, anywhere in the pixel, in unusual longitude conventions."""
    lon, lat = healpix.randang(nside, ipix, lonlat=True)
    lon, lat = np.array(lon, float), np.array(lat, float)
    k = ck.rng.integers(0, 3, lon.shape)
    cl, cb = healpix.pix2ang(nside, ipix, lonlat=True)
    centre = ck.rng.integers(0, 4, lon.shape) == 0
    lon, lat = np.where(centre, cl, lon), np.where(centre, cb, lat)
    lon = lon + np.choose(k, [0.0, 360.0, -360.0])
    ok = healpix.ang2pix(nside, lon, lat, lonlat=True) == ipix
    return np.where(ok, lon, cl), np.where(ok, lat, cb)


def run(ck):
    q = ck.quick
    r4 = "{<<0,1>>, <<1,2>>, <<-1,4>>}"
    recs = ck.tlc("Shear", {
        "Block": 3, "MaxSize": 8 if q else 12,
        "Es": "{<<<<0,1>>,<<0,1>>>>, <<<<1,2>>,<<0,1>>>>, <<<<0,1>>,<<-1,1>>>>, <<<<-3,5>>,<<4,5>>>>, <<<<1,4>>,<<-1,3>>>>, <<<<-1,2>>,<<1,4>>>>, <<<<1,1>>,<<0,1>>>>}",
        "Kappas": "{<<0,1>>, <<1,2>>, <<-1,3>>, <<1,10>>, <<2,1>>}",
        "Gammas": "{<<<<0,1>>,<<0,1>>>>, <<<<1,10>>,<<0,1>>>>, <<<<0,1>>,<<1,5>>>>, <<<<-1,4>>,<<1,8>>>>, <<<<1,3>>,<<-1,6>>>>, <<<<-2,5>>,<<-1,2>>>>}",
    }, invariants=["EachOnce", "Identity", "Undo", "Disk", "Emit", "EmitSize"])
    table = [r for r in recs if "c" in r]
    sizes = sorted(r["size"] for r in recs if "size" in r)
    cf = lambda p: complex(Q(p[0]), Q(p[1]))  # noqa: E731
    maps, eps = sorted({(str(r["c"]["k"]), str(r["c"]["g"])) for r in table}), sorted({str(r["c"]["e"]) for r in table})
    kg = {}
    ee = {}
    out = np.full((2, len(eps), len(maps)), np.nan + 0j)
    for r in table:
        c = r["c"]
        mi, ei = maps.index((str(c["k"]), str(c["g"]))), eps.index(str(c["e"]))
        kg[mi] = (float(Q(c["k"])), cf(c["g"]))
        ee[ei] = cf(c["e"])
        o = r["out"]
        if o[0][1] and o[1][1]:
            out[int(c["red"]), ei, mi] = cf(o)
    KG = np.array([kg[i][0] for i in range(len(maps))]), np.array([kg[i][1] for i in range(len(maps))])
    E = np.array([ee[i] for i in range(len(eps))])
    ck.sample(table[7])
    ck.sample({"sizes": sizes})
    # sizes of the model lifted to the real block: a * 3 + b  ->  a * 10000 + b
    lifted = sorted({max(0, s // 3 * BLOCK + b) for s in sizes for b in ([0, 1, 2][s % 3], -1 if s % 3 == 0 and s else [0, 1, 2][s % 3])}
                    | {0, 1, 2, 5, 37, 999, 1000, 4097, 25_000, 60_003} | (set() if ck.quick else {130_001}))
    n = 0
    for size in lifted:
        for bi, (name, xp) in enumerate(BACKENDS):
            if bi and q and size > 10_001 and (size + bi) % 3:
                continue
            for red in (True, False):
                n += 1
                nside = [1, 2, 4, 8, 16, 64][n % 6]
                npix = 12 * nside**2
                mi = ck.rng.integers(0, len(maps), npix)
                ei = ck.rng.integers(0, len(eps), size)
                if n % 3 == 0 and size:   # every galaxy's pixel is different from its neighbours'
                    ipix = (np.arange(size) * 7) % npix
                elif n % 3 == 1:
                    ipix = np.sort(ck.rng.integers(0, npix, size))
                else:
                    ipix = ck.rng.integers(0, npix, size)
                exp = out[int(red), ei, mi[ipix]] if size else np.zeros(0, complex)
                good = np.isfinite(exp)
                lon, lat = positions(ck, nside, ipix, n) if size else (np.zeros(0), np.zeros(0))
                d = {"size": size, "nside": nside, "reduced": red, "backend": name, "pix": ipix[:20]}
                ck.traces += 1
                with ck.case("galaxy_shear", d, timeout=120):
                    kw = {} if red and n % 2 else {"reduced_shear": red}
                    got = glass.galaxy_shear(mk(xp, lon), mk(xp, lat), mk(xp, E[ei], complex),
                                             mk(xp, KG[0][mi]), mk(xp, KG[1][mi].real), mk(xp, KG[1][mi].imag), **kw)
                    g = npa(got)
                    ck.ok(g.shape == (size,) and nsname(got) == name and g.dtype.kind == "c", "one complex shear per galaxy", lambda: {**d, "shape": g.shape})
                    if g.shape == (size,):
                        bad = np.nonzero(~(np.abs(g - exp) < 1e-9 * (1 + np.abs(exp))) & good)[0]
                        ck.ok(not len(bad), "shear of the galaxy's own pixel", lambda: {
                            **d, "first bad": bad[:10], "got": g[bad[:10]], "expected": exp[bad[:10]]})
                # only some of the galaxies: the same values
                if size > 3 and n % 2:
                    with ck.case("galaxy_shear of a part", d, timeout=120):
                        part = np.sort(ck.rng.permutation(size)[: max(1, size // 3)])
                        g2 = npa(glass.galaxy_shear(mk(xp, lon[part]), mk(xp, lat[part]), mk(xp, E[ei][part], complex),
                                                    mk(xp, KG[0][mi]), mk(xp, KG[1][mi].real), mk(xp, KG[1][mi].imag), reduced_shear=red))
                        gp = good[part]
                        ck.ok(g2.shape == part.shape and close(g2[gp], g[part][gp]), "a galaxy's shear does not depend on the others", d)
    # real ellipticities and the poles
    for name, xp in BACKENDS:
        for nside in (1, 4, 32):
            npix = 12 * nside**2
            k, g1, g2 = (np.arange(npix) % 7) / 20, (np.arange(npix) % 5) / 30, (np.arange(npix) % 3) / -40
            for lon, lat in [(0.0, 90.0), (123.0, -90.0), (360.0, 0.0), (-180.0, 0.0), (180.0, 0.0), (720.5, 10.0)]:
                p = healpix.ang2pix(nside, lon, lat, lonlat=True)
                d = {"lon": lon, "lat": lat, "nside": nside, "backend": name}
                with ck.case("galaxy_shear", d):
                    got = npa(glass.galaxy_shear(mk(xp, [lon]), mk(xp, [lat]), mk(xp, [0.25]), mk(xp, k), mk(xp, g1), mk(xp, g2)))
                    g = (g1[p] + 1j * g2[p]) / (1 - k[p])
                    ck.ok(close(got, [(0.25 + g) / (1 + np.conj(g) * 0.25)]), "shear of the galaxy's own pixel", d)


main("C18", run)
