"""Public operations with arguments, for the histories of C24."""
from vf import *  # noqa: F403

import healpy
import glass.arraytools
import glass.algorithm
import glass.grf
import glass.harmonics
import glass.healpix as hp
import glass.rng

M2A = healpy.map2alm


def no_weights(*a, **k):
    """The pixel weight data are not installed here."""
    k["use_pixel_weights"] = False
    k["datapath"] = None
    return M2A(*a, **k)


def window(nside, pol=False, lmax=None, datapath=None):
    """Stand-in for the window data, which are not installed here."""
    ell = np.arange(3 * nside if lmax is None else lmax + 1)
    w0 = 1 / (1.25 + 0.5 * ell + 1 / nside)
    return (w0, w0 * (ell + 1) / (ell + 3)) if pol else w0


healpy.map2alm, healpy.pixwin = no_weights, window


class Cosmo:
    """Distance relation x = z / (1 + z/4) in units of the Hubble distance."""

    hubble_distance = 3000.0
    Omega_m0 = 0.3
    critical_density0 = 2.5
    h = 0.7

    def __init__(self, xp):
        self.xp = xp

    def _a(self, z):
        if isinstance(z, (list, tuple)):
            return self.xp.asarray([float(v) for v in z], dtype=self.xp.float64)
        return z if hasattr(z, "__array_namespace__") else self.xp.asarray(z, dtype=self.xp.float64)

    def H_over_H0(self, z):  # noqa: N802
        return (0.3 * (1 + self._a(z)) ** 3 + 0.7) ** 0.5

    def Omega_m(self, z):  # noqa: N802
        return 0.3 * (1 + self._a(z)) ** 3 / (0.3 * (1 + self._a(z)) ** 3 + 0.7)

    def _x(self, z):
        z = self._a(z)
        return 3000.0 * z / (1 + z / 4)

    def transverse_comoving_distance(self, z, z2=None):
        return self._x(z) if z2 is None else self._x(z2) - self._x(z)

    comoving_distance = transverse_comoving_distance

    def inv_comoving_distance(self, x):
        x = x / 3000.0
        return x / (1 - x / 4)

    def growth_factor(self, z):
        return 1 / (1 + self._a(z))


class Op:
    def __init__(self, name, args, call, draws, only, iterator, reuse):
        self.name, self.args, self.call, self.draws = name, args, call, draws
        self.only, self.iterator, self.reuse = only, iterator, reuse


OPS = []


def op(name, args=lambda xp: (), draws=False, only=None, iterator=False, reuse=False):
    def deco(fn):
        OPS.append(Op(name, args, fn, draws, only, iterator, reuse))
        return fn
    return deco


R = np.random.default_rng(20)
N = {}


def data(key, make):
    """The same numbers for every backend and every call."""
    if key not in N:
        N[key] = make(np.random.default_rng(sum(map(ord, key))))
    return N[key]


def cls3(xp):
    ell = np.arange(9.0)
    f = lambda a: 1.0 / (ell + 1) ** a
    return [mk(xp, v) for v in (f(2), 2 * f(2), 0.5 * f(2), 3 * f(2), 0.25 * f(2)[:7], 0.1 * f(2)[:5])]


def windows(xp):
    return glass.linear_windows(mk(xp, [0.0, 0.3, 0.5, 0.9, 1.4]), dz=0.1)


def unif(xp, name, *shape, lo=0.0, hi=1.0):
    return mk(xp, data(f"{name}{shape}{lo}{hi}", lambda r: r.uniform(lo, hi, shape)))


def nz(xp):
    z = np.linspace(0, 2, 21)
    return mk(xp, z), mk(xp, z**2 * np.exp(-2 * z))


A = lambda *f: (lambda xp: tuple(g(xp) for g in f))  # noqa: E731
C = lambda v: (lambda xp: v)  # noqa: E731
arr = lambda v: (lambda xp: mk(xp, v))  # noqa: E731
U = lambda *a, **k: (lambda xp: unif(xp, *a, **k))  # noqa: E731

# ---- fields
op("enumerate_spectra", A(cls3))(lambda xp, c, rng: list(glass.enumerate_spectra(c)))
op("getcl", A(cls3, C(2), C(0)))(lambda xp, c, i, j, rng: glass.getcl(c, i, j))
op("getcl.cut", A(cls3, C(1), C(2)))(lambda xp, c, i, j, rng: glass.getcl(c, i, j, lmax=3))
op("getcl.pad", A(cls3, C(1), C(2)))(lambda xp, c, i, j, rng: glass.getcl(c, i, j, lmax=11))
op("spectra_indices")(lambda xp, rng: glass.spectra_indices(4, xp=xp))
op("nfields", A(C(55)))(lambda xp, n, rng: glass.nfields_from_nspectra(n))
op("to_healpix", A(cls3))(lambda xp, c, rng: glass.glass_to_healpix_spectra(c))
op("from_healpix", A(cls3))(lambda xp, c, rng: glass.healpix_to_glass_spectra(c))
op("cov_from_spectra", A(cls3))(lambda xp, c, rng: glass.cov_from_spectra(c))
op("cov_from_spectra.lmax", A(cls3))(lambda xp, c, rng: glass.cov_from_spectra(c, lmax=11))
op("check_posdef", A(cls3))(lambda xp, c, rng: bool(glass.check_posdef_spectra(c)))
op("regularized.nearest", A(cls3))(lambda xp, c, rng: glass.regularized_spectra(c))
op("regularized.clip", A(cls3))(lambda xp, c, rng: glass.regularized_spectra(c, method="clip", lmax=4))
op("discretized_cls", A(cls3))(lambda xp, c, rng: glass.discretized_cls(c, lmax=5, ncorr=1))
op("discretized_cls.nside", A(cls3))(lambda xp, c, rng: glass.discretized_cls(c, nside=2))
op("effective_cls", A(cls3, U("w", 3, 2)))(lambda xp, c, w, rng: glass.effective_cls(c, w))
op("effective_cls.two", A(cls3, U("w", 3, 2), U("v", 3)))(lambda xp, c, w, v, rng: glass.effective_cls(c, w, v, lmax=4))
op("iternorm", A(lambda xp: [mk(xp, [[2.0, 0.0], [1.0, 0.0]]), mk(xp, [[3.0, 1.0], [1.0, 0.5]]), mk(xp, [[1.0, 0.2], [4.0, 1.0]])]),
   iterator=True)(lambda xp, c, rng: glass.iternorm(c))
op("cls2cov", A(cls3), iterator=True, reuse=True)(lambda xp, c, rng: glass.cls2cov(c, 9, 3, 2))
op("generate", A(cls3), draws=True, iterator=True)(
    lambda xp, c, rng: glass.generate([glass.grf.Normal(), glass.grf.Lognormal(2.0), glass.grf.Normal()], c, 4, rng=rng))
op("generate.ncorr", A(cls3), draws=True, iterator=True)(
    lambda xp, c, rng: glass.generate([glass.grf.Lognormal()] * 3, c, 2, ncorr=1, rng=rng))
op("generate_gaussian", A(cls3), draws=True, iterator=True)(lambda xp, c, rng: glass.generate_gaussian(c, 2, rng=rng))
op("generate_lognormal", A(cls3), draws=True, iterator=True)(lambda xp, c, rng: glass.generate_lognormal(c, 2, 1.5, rng=rng))
op("lognormal_gls", A(cls3))(lambda xp, c, rng: glass.lognormal_gls(c, 2.0))
op("solve_gaussian_spectra", A(cls3))(
    lambda xp, c, rng: glass.solve_gaussian_spectra([glass.grf.Lognormal(1.5), glass.grf.Lognormal(), glass.grf.Lognormal(0.5)], c))
op("compute_gaussian_spectra", A(cls3), only=["numpy"])(
    lambda xp, c, rng: glass.compute_gaussian_spectra([glass.grf.Lognormal(1.5)] * 3, c))
op("gaussian_fields", A(windows))(lambda xp, w, rng: glass.gaussian_fields(w))
op("lognormal_fields", A(windows))(lambda xp, w, rng: glass.lognormal_fields(w, glass.lognormal_shift_hilbert2011))
op("shift_hilbert", A(C(0.7)))(lambda xp, z, rng: glass.lognormal_shift_hilbert2011(z))
# ---- grf
op("grf.solve", A(lambda xp: cls3(xp)[0]))(lambda xp, c, rng: glass.grf.solve(c, glass.grf.Lognormal(), pad=9, monopole=0.0))
op("grf.solve.initial", A(lambda xp: cls3(xp)[0], lambda xp: cls3(xp)[5]))(
    lambda xp, c, i, rng: glass.grf.solve(c, glass.grf.Lognormal(2.0), glass.grf.Lognormal(), initial=i, maxiter=3))
op("grf.compute", A(lambda xp: cls3(xp)[0]), only=["numpy"])(lambda xp, c, rng: glass.grf.compute(c, glass.grf.Lognormal()))
op("grf.corr", A(U("x", 5)))(lambda xp, x, rng: glass.grf.corr(glass.grf.Lognormal(2.0), glass.grf.Normal(), x))
op("grf.corr.normal", A(U("x", 5)))(lambda xp, x, rng: glass.grf.corr(glass.grf.Normal(), glass.grf.Normal(), x))
op("grf.icorr", A(U("x", 5)))(lambda xp, x, rng: glass.grf.icorr(glass.grf.SquaredNormal(0.5), glass.grf.SquaredNormal(0.5), x))
op("grf.dcorr", A(U("x", 5)))(lambda xp, x, rng: glass.grf.dcorr(glass.grf.Lognormal(2.0), glass.grf.Lognormal(), x))
op("grf.call", A(U("x", 5)))(lambda xp, x, rng: [glass.grf.Lognormal(2.0)(x, 1.0), glass.grf.Normal()(x, 1.0), glass.grf.SquaredNormal(0.3, 2.0)(x, 1.0)])
# ---- harmonics, healpix
op("multalm", A(lambda xp: unif(xp, "a", 10), U("b", 4)))(lambda xp, a, b, rng: glass.harmonics.multalm(a, b))
op("hp.almxfl", A(lambda xp: unif(xp, "a", 10) + 0j, U("b", 4)))(lambda xp, a, b, rng: hp.almxfl(a, b))
op("hp.alm2map", A(lambda xp: unif(xp, "a", 10) + 0j))(lambda xp, a, rng: hp.alm2map(a, 2, lmax=3))
op("hp.alm2map_spin", A(lambda xp: [unif(xp, "a", 10) + 0j, unif(xp, "b", 10) + 0j]))(lambda xp, a, rng: hp.alm2map_spin(a, 2, 2, 3))
op("hp.map2alm", A(U("m", 48)))(lambda xp, m, rng: hp.map2alm(m, lmax=4, pol=False, use_pixel_weights=False))
op("hp.ang2pix", A(U("t", 6, hi=3.0), U("p", 6, hi=6.0)))(lambda xp, t, p, rng: hp.ang2pix(4, t, p))
op("hp.ang2vec", A(U("t", 6, hi=3.0), U("p", 6, hi=6.0)))(lambda xp, t, p, rng: hp.ang2vec(t, p))
op("hp.query_strip")(lambda xp, rng: hp.query_strip(4, (1.0, 1.5), xp=xp, dtype=xp.float64))
op("hp.pixwin")(lambda xp, rng: hp.pixwin(4, xp=xp))
op("hp.rotate", A(U("m", 48)))(lambda xp, m, rng: hp.Rotator(coord="GC").rotate_map_pixel(m))
op("hp.randang", A(lambda xp: mk(xp, [3, 5, 5, 40], dtype=int)), draws=True)(lambda xp, i, rng: list(hp.randang(2, i, lonlat=True, rng=rng)))
# ---- points
op("linear_bias", A(U("d", 6), C(2.0)))(lambda xp, d, b, rng: glass.linear_bias(d, b))
op("loglinear_bias", A(U("d", 6), U("b", 6)))(lambda xp, d, b, rng: glass.loglinear_bias(d, b))
op("effective_bias", A(lambda xp: nz(xp)[0], lambda xp: nz(xp)[1], lambda xp: windows(xp)[1]))(lambda xp, z, b, w, rng: glass.effective_bias(z, b, w))
op("position_weights", A(U("d", 3, 2, lo=0.5), U("b", 3)))(lambda xp, d, b, rng: glass.position_weights(d, b))
op("displace", A(U("lon", 4, hi=300.0), U("lat", 4, lo=-80.0, hi=80.0), lambda xp: unif(xp, "al", 4) * (0.1 + 0.2j)))(
    lambda xp, a, b, c, rng: list(glass.displace(a, b, c)))
op("displacement", A(U("lon", 4, hi=300.0), U("lat", 4, lo=-80.0, hi=80.0), U("lon2", 4, hi=300.0), U("lat2", 4, lo=-80.0, hi=80.0)))(
    lambda xp, a, b, c, d, rng: glass.displacement(a, b, c, d))
op("uniform_positions", A(arr([[2e-7], [1e-7]])), draws=True, iterator=True)(lambda xp, n, rng: glass.uniform_positions(n, rng=rng))
op("positions_from_delta", A(arr([1e-7, 2e-7]), U("delta", 2, 48, lo=-1.0)), draws=True, iterator=True)(
    lambda xp, n, d, rng: glass.positions_from_delta(n, d, rng=rng, batch=25))
op("positions_from_delta.full", A(C(3e-7), U("delta", 2, 48, lo=-1.0), U("b2", 2), U("vis", 48)), draws=True, iterator=True)(
    lambda xp, n, d, b, v, rng: glass.positions_from_delta(n, d, b, v, rng=rng, remove_monopole=True))
op("positions_from_delta.loglinear", A(arr(2e-7), U("delta", 48, lo=-0.9), C(0.8)), draws=True, iterator=True)(
    lambda xp, n, d, b, rng: glass.positions_from_delta(n, d, b, bias_model=glass.loglinear_bias, rng=rng, batch=25))
# ---- galaxies
op("redshifts", A(lambda xp: windows(xp)[1]), draws=True)(lambda xp, w, rng: glass.redshifts(5, w, rng=rng))
op("redshifts_from_nz", A(lambda xp: mk(xp, [2, 0, 3], dtype=int), lambda xp: nz(xp)[0], lambda xp: nz(xp)[1]), draws=True)(
    lambda xp, n, z, f, rng: glass.redshifts_from_nz(n, z, f, rng=rng, warn=False))
op("redshifts_from_bins", A(lambda xp: mk(xp, [[2, 0], [1, 2]], dtype=int), lambda xp: nz(xp)[0],
                            lambda xp: {k: nz(xp)[1] * (1 + k) for k in range(3)}), draws=True)(
    lambda xp, b, z, d, rng: glass.redshifts_from_bins(b, z, d, rng=rng))
op("gaussian_phz", A(U("z", 6), C(0.3)), draws=True)(lambda xp, z, s, rng: glass.gaussian_phz(z, s, rng=rng))
op("gaussian_phz.limits", A(U("z", 6), U("s", 6), U("lo", 6, hi=0.2), U("hi", 6, lo=0.8, hi=1.2)), draws=True)(
    lambda xp, z, s, a, b, rng: glass.gaussian_phz(z, s, lower=a, upper=b, rng=rng))
op("galaxy_shear", A(U("lon", 4, hi=300.0), U("lat", 4, lo=-80.0, hi=80.0), lambda xp: unif(xp, "e", 4) * (0.1 + 0.2j),
                     U("k", 48, hi=0.1), U("g1", 48, hi=0.1), U("g2", 48, hi=0.1)))(
    lambda xp, a, b, e, k, g, h, rng: glass.galaxy_shear(a, b, e, k, g, h))
# ---- shapes
op("triaxial_axis_ratio", A(U("zeta", 3, lo=0.5), U("xi", 3, hi=0.5)), draws=True)(lambda xp, a, b, rng: glass.triaxial_axis_ratio(a, b, rng=rng))
op("triaxial_axis_ratio.size", A(U("zeta", 3, lo=0.5), C(0.3)), draws=True)(lambda xp, a, b, rng: glass.triaxial_axis_ratio(a, b, size=(2, 3), rng=rng))
op("ellipticity_ryden04", A(arr([-1.85, -2.0]), C(0.9), C(0.222), arr(0.056)), draws=True)(
    lambda xp, *a, rng: glass.ellipticity_ryden04(*a, size=(3, 2), rng=rng))
op("ellipticity_gaussian", A(lambda xp: mk(xp, [2, 0, 3], dtype=int), U("sg", 3, lo=0.2, hi=0.6)), draws=True)(lambda xp, n, s, rng: glass.ellipticity_gaussian(n, s, rng=rng))
op("ellipticity_intnorm", A(lambda xp: mk(xp, [2, 0, 3], dtype=int), U("sg", 3, lo=0.2, hi=0.6)), draws=True)(lambda xp, n, s, rng: glass.ellipticity_intnorm(n, s, rng=rng))
op("resample_shapes", A(lambda xp: unif(xp, "e", 6) * (0.3 + 0.4j)), draws=True)(lambda xp, e, rng: glass.resample_shapes(e, rng=rng))
op("resample_shapes.varg", A(lambda xp: unif(xp, "e", 6) * (0.3 + 0.4j)), draws=True)(lambda xp, e, rng: glass.resample_shapes(e, varg=0.01, rng=rng))
op("resample_shapes.vargamma", A(lambda xp: unif(xp, "e", 6) * (0.3 + 0.4j)), draws=True)(lambda xp, e, rng: glass.resample_shapes(e, vargamma=0.01, rng=rng))
# ---- lensing
op("from_convergence", A(U("kap", 48)))(lambda xp, k, rng: list(glass.from_convergence(k, potential=True, deflection=True, shear=True)))
op("from_convergence.shear", A(U("kap", 48)))(lambda xp, k, rng: list(glass.from_convergence(k, 4, shear=True, discretized=False)))
op("shear_from_convergence", A(U("kap", 48)), only=["numpy"])(lambda xp, k, rng: list(glass.shear_from_convergence(k)))
op("multi_plane_matrix", A(windows, Cosmo))(lambda xp, w, c, rng: glass.multi_plane_matrix(w, c))
op("multi_plane_weights", A(U("w", 3, 2, lo=0.5), windows, Cosmo))(lambda xp, v, w, c, rng: glass.multi_plane_weights(v, w, c))
op("deflect", A(U("lon", 4, hi=300.0), U("lat", 4, lo=-80.0, hi=80.0), U("al2", 2, 4, hi=0.1)))(lambda xp, a, b, c, rng: list(glass.deflect(a, b, c)))


@op("MultiPlaneConvergence", A(U("d", 3, 48, lo=-1.0), windows, Cosmo))
def _mpc(xp, d, ws, c, rng):
    m = glass.MultiPlaneConvergence(c)
    out = []
    for i, w in enumerate(ws):
        m.add_window(d[i, ...], w)
        out += [xp.asarray(m.kappa, copy=True), m.zsrc, m.wlens, xp.asarray(m.delta, copy=True)]
    return out


@op("MultiPlaneConvergence.planes", A(U("d", 3, 48, lo=-1.0), Cosmo))
def _mpc2(xp, d, c, rng):
    m = glass.MultiPlaneConvergence(c)
    out = []
    for i, z in enumerate([0.5, 0.4, 1.0]):
        try:
            m.add_plane(d[i, ...], z, 0.25)
        except ValueError:
            continue
        out += [xp.asarray(m.kappa, copy=True), m.zsrc, m.wlens]
    return out


# ---- observations
op("vmap", only=None)(lambda xp, rng: glass.vmap_galactic_ecliptic(4, (1.4, 1.7), (2.0, 2.6), xp=xp))
op("gaussian_nz", A(lambda xp: nz(xp)[0], arr([0.5, 1.0]), arr([0.1, 0.2])))(lambda xp, z, m, s, rng: glass.gaussian_nz(z, m, s, norm=2.0))
op("smail_nz", A(lambda xp: nz(xp)[0], arr([0.5, 1.0]), arr([2.0, 1.5]), C(1.5)))(lambda xp, z, m, a, b, rng: glass.smail_nz(z, m, a, b))
op("fixed_zbins")(lambda xp, rng: glass.fixed_zbins(0.1, 1.3, dz=0.25, xp=xp))
op("fixed_zbins.n")(lambda xp, rng: glass.fixed_zbins(0.1, 1.3, nbins=4, xp=xp))
op("equal_dens_zbins", A(lambda xp: nz(xp)[0], lambda xp: nz(xp)[1]))(lambda xp, z, n, rng: glass.equal_dens_zbins(z, n, 3))
op("tomo_nz_gausserr", A(lambda xp: nz(xp)[0], lambda xp: nz(xp)[1], C([(0.2, 0.5), (0.5, 1.0)])))(
    lambda xp, z, n, b, rng: glass.tomo_nz_gausserr(z, n, 0.1, b))
# ---- shells
op("tophat_windows", A(arr([0.0, 0.3, 0.5])))(lambda xp, z, rng: glass.tophat_windows(z, 0.1))
op("linear_windows", A(arr([0.0, 0.3, 0.5, 0.9])))(lambda xp, z, rng: glass.linear_windows(z, 0.1, lambda y: 1 + y))
op("cubic_windows", A(arr([0.0, 0.3, 0.5, 0.9])))(lambda xp, z, rng: glass.cubic_windows(z, 0.1))
op("RadialWindow", A(U("za", 4), U("wa", 4)))(lambda xp, z, w, rng: glass.RadialWindow(z, w))
op("weights", A(lambda xp: nz(xp)[0] + 0.1, Cosmo))(lambda xp, z, c, rng: [glass.DistanceWeight(c)(z), glass.VolumeWeight(c)(z), glass.DensityWeight(c)(z)])
op("redshift_grid")(lambda xp, rng: glass.redshift_grid(0.1, 1.2, dz=0.3, xp=xp))
op("distance_grid", A(Cosmo))(lambda xp, c, rng: glass.distance_grid(c, 0.1, 1.2, dx=300.0))
op("restrict", A(lambda xp: nz(xp)[0], lambda xp: nz(xp)[1], lambda xp: windows(xp)[1]))(lambda xp, z, f, w, rng: list(glass.restrict(z, f, w)))
for _m in ("nnls", "lstsq", "restrict"):
    op("partition." + _m, A(lambda xp: nz(xp)[0], lambda xp: xp.stack([nz(xp)[1], 2 * nz(xp)[1] + 1]), windows))(
        lambda xp, z, f, w, rng, _m=_m: glass.partition(z, f, w, method=_m))
op("combine", A(lambda xp: nz(xp)[0], U("w", 3, 2), windows))(lambda xp, z, w, s, rng: glass.combine(z, w, s))
op("distribute", A(U("zd", 7, hi=1.6), windows), draws=True)(lambda xp, z, w, rng: glass.shells.distribute(z, w, rng=rng))
# ---- arraytools, algorithm
op("broadcast_first", A(U("a", 3), U("b", 3, 2)))(lambda xp, a, b, rng: list(glass.arraytools.broadcast_first(a, b)))
op("broadcast_leading_axes", A(U("a", 2, 3), U("b", 4)))(lambda xp, a, b, rng: list(glass.arraytools.broadcast_leading_axes((a, 0), (b, 1))))
op("ndinterp", A(U("a", 5), arr([0.0, 0.5, 1.0]), U("f", 2, 3)))(lambda xp, x, q, f, rng: glass.arraytools.ndinterp(x, q, f, left=0.0))
op("trapezoid_product", A(lambda xp: nz(xp), lambda xp: nz(xp)[::-1][::-1]))(lambda xp, f, g, rng: glass.arraytools.trapezoid_product(f, g))
op("cumulative_trapezoid", A(lambda xp: nz(xp)[1], lambda xp: nz(xp)[0]))(lambda xp, f, x, rng: glass.arraytools.cumulative_trapezoid(f, x))
op("nnls", A(U("nn", 5, 3), U("bb", 5)))(lambda xp, a, b, rng: glass.algorithm.nnls(a, b))
op("cov_clip", A(lambda xp: sym(xp)))(lambda xp, a, rng: glass.algorithm.cov_clip(a, rtol=0.1))
op("nearcorr", A(lambda xp: sym(xp, unit=True)))(lambda xp, a, rng: glass.algorithm.nearcorr(a))
op("cov_nearest", A(lambda xp: sym(xp)))(lambda xp, a, rng: glass.algorithm.cov_nearest(a))
# ---- generators
op("rng.default", A())(lambda xp, rng: glass.rng.default_rng(xp=xp).random(3))
op("rng.Generator", A())(lambda xp, rng: glass.rng.Generator(xp=xp, seed=7).normal(0.0, 1.0, 3))
op("rng.draws", A(U("p", 2, 3, lo=0.1)), draws=True)(
    lambda xp, p, rng: [g := glass.rng.Generator(rng=rng, xp=xp), g.random(2), g.normal(1.0, 2.0, 2), g.poisson(p), g.standard_normal(2), g.uniform(-1.0, 1.0, 2)][1:])


def sym(xp, unit=False):
    a = data(f"sym{unit}", lambda r: r.normal(size=(2, 3, 3)))
    a = a + np.swapaxes(a, 1, 2)
    for i in range(3):
        a[:, i, i] = 1.0 if unit else 2.0 + i
    return mk(xp, a)


@op("spectra file", A(cls3), only=["numpy"])
def _file(xp, c, rng):
    with tempfile.TemporaryDirectory() as d:
        glass.save_cls(f"{d}/x.npz", c)
        return glass.load_cls(f"{d}/x.npz")


@op("catalogue", A(U("a", 5), U("b", 5)), only=["numpy"])
def _cat(xp, a, b, rng):
    import fitsio
    with tempfile.TemporaryDirectory() as d:
        with glass.write_catalog(f"{d}/x.fits", ext="CAT") as f:
            f.write(A=a, B=b)
            f.write(A=a[:2], B=b[3:])
        t = fitsio.read(f"{d}/x.fits", ext="CAT")
        return [np.array(t["A"]), np.array(t["B"])]
