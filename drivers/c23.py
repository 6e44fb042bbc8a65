"""C23: Sersic profiles: enclosed light, radii, isophotes, mixtures, and the galaxies that use them."""
import contextlib, io, math, os, random, shutil, tempfile, warnings
from unittest import mock

import numpy as np
import h5py
from scipy.integrate import quad
from scipy.optimize import brentq
from scipy.special import ive

from vlib.core import attempt
from forcepho.utils import profile as up, frac_sersic, kron_radius, isophotal_radius
from forcepho.mixtures import sersic_mix_oned as so
from forcepho.mixtures import sersic_mix_twod as st2
from forcepho.sources import Galaxy

BAD = 1999999999


def I(v, s=1.):
    v = float(v) * s
    return int(round(v)) if math.isfinite(v) and abs(v) < 1.9e9 else BAD


def rel(got, want):
    return [I(got / want, 1e6) if want else I(got, 1e6), 1000000 if want else 0]


# ------------------------------------------------------------- the profile, by quadrature alone
class Light:
    """exp(-b (r/rh)^(1/n)); u = (r/rh)^(1/n) is the variable of integration."""

    def __init__(self, n, rh):
        self.n, self.rh = float(n), float(rh)
        self.b = brentq(lambda b: self._m(b, 2, 1.) - .5 * self._m(b, 2, None), 1e-3, 6 * self.n + 4, xtol=1e-13, rtol=1e-13)

    def _m(self, b, p, umax):
        """integral of r^(p-1) dr in units of rh^p, over n"""
        a = p * self.n
        top = (a + 40 + 12 * math.sqrt(a)) / b
        top = top if umax is None else min(umax, top)
        pk = max(a - 1, 0) / b
        f = lambda u: math.exp((a - 1) * math.log(u * b) - u * b - (a - 1) * math.log(max(a - 1, 1)) + (a - 1)) if u > 0 else 0.
        pts = [x for x in (pk * .3, pk, pk * 1.5, pk * 2.5) if 0 < x < top]
        edges = [0.] + sorted(pts) + [top]
        return sum(quad(f, lo, hi, epsabs=0, epsrel=1e-11, limit=200)[0] for lo, hi in zip(edges, edges[1:]))

    def u(self, r):
        return (r / self.rh) ** (1 / self.n)

    def enclosed(self, r):
        return self._m(self.b, 2, self.u(r)) / self._m(self.b, 2, None) if r > 0 else 0.

    def lnscale(self, p):
        """ln of the normalisation taken out by _m"""
        a = p * self.n
        return (a - 1) * math.log(max(a - 1, 1)) - (a - 1) - (a - 1) * math.log(self.b)

    def moment(self, p, umax):
        return self._m(self.b, p, umax) * math.exp(self.lnscale(p))

    def kron(self, rmax):
        um = None if rmax is None else self.u(rmax)
        return self.rh * self._m(self.b, 3, um) / self._m(self.b, 2, um) * math.exp(self.lnscale(3) - self.lnscale(2))

    def shape(self, r):
        """brightness relative to that at the half-light radius"""
        return math.exp(self.b * (1 - self.u(r)))

    def ieff(self, flux, within=None):
        um = None if within is None else self.u(within)
        t = 2 * math.pi * self.n * self.rh ** 2 * self._m(self.b, 2, um) * math.exp(self.lnscale(2) + self.b)
        return flux / t

    def smooth(self, x, s):
        """convolved with a circular Gaussian of dispersion s, at radius x"""
        hi = x + 9 * s
        g = np.linspace(0, 1, 4001) ** 3
        r = hi * g
        y = np.zeros_like(r)
        y[1:] = r[1:] / s ** 2 * np.exp(-(x - r[1:]) ** 2 / (2 * s * s)) * ive(0, x * r[1:] / s ** 2) * np.exp(self.b * (1 - (r[1:] / self.rh) ** (1 / self.n)))
        return float(np.trapezoid(y, r))


def mixture(r, amps, disps):
    r = np.atleast_1d(r)[:, None]
    return (amps / (2 * np.pi * disps ** 2) * np.exp(-.5 * (r / disps) ** 2)).sum(axis=1)


GRID = sorted({int(round(v)) for v in np.logspace(0, 4.3, 90)} | {1000, 2000, 3000, 5000, 10000})


class Session:
    def __init__(self, rng):
        self.rng, self.evs = rng, []
        self.work = None
        self.new()

    def new(self):
        g = self.rng
        self.n = g.choice([1., 2., 4., 1, 2, 4, g.uniform(.55, 1.), g.uniform(1, 6)])
        self.rh = 10 ** g.uniform(-2, 1.3)
        self.l = Light(self.n, self.rh)
        self.sure = True

    def add(self, fn, **k):
        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            v, exc = attempt(fn)
        if exc:
            self.evs.append(dict(k, exc=exc))
            return False
        self.evs += v if isinstance(v, list) else [dict(v, **k)]
        return True

    # ---- questions
    def enclosed(self):
        g, l = self.rng, self.l
        r = np.array(GRID) / 1000. * self.rh
        want = [I(l.enclosed(x), 1e6) for x in r]

        def fn():
            form = g.choice(["vector", "scalar", "many", "column"])
            if form == "vector":
                f = frac_sersic(r, rhalf=self.rh, sersic=self.n)
            elif form == "scalar":
                f = np.array([frac_sersic(x, rhalf=self.rh, sersic=self.n) for x in r])
            elif form == "many":
                f = frac_sersic(r, rhalf=np.full(len(r), self.rh), sersic=np.full(len(r), float(self.n)))
            else:
                m = frac_sersic(r[:, None], rhalf=np.array([self.rh * 2, self.rh]), sersic=np.array([1., float(self.n)]))
                if np.shape(m) != (len(r), 2):
                    return dict(exc="shape")
                f = m[:, 1]
            return dict(pts=[[k, I(x, 1e6)] for k, x in zip(GRID, np.ravel(f))], want=want)
        return self.add(fn, op="enclosed")

    def kron(self):
        g, l = self.rng, self.l
        ask = [0] + g.sample([k for k in GRID if k >= 20], 6)

        def fn():
            out = []
            for k in ask:
                rm = k / 1000. * self.rh
                v = kron_radius(self.rh, self.n, rmax=rm) if k else kron_radius(self.rh, self.n)
                if k and g.random() < .3:
                    v = np.ravel(kron_radius(np.array([self.rh, self.rh]), np.array([float(self.n)] * 2), rmax=rm))[1]
                out.append(dict(rmax=k, got=I(v / self.rh, 1e3), rel=rel(v, l.kron(rm if k else None))))
            return dict(asked=out)
        return self.add(fn, op="kron")

    def isophote(self):
        g, l = self.rng, self.l
        flux = 10 ** g.uniform(-2, 4)
        within = g.choice([None, None, g.uniform(.3, 5) * self.rh])
        ie = l.ieff(flux, within)

        def fn():
            got = up.I_eff(flux, self.rh, flux_radius=within, sersic=self.n)
            out = []
            us = [g.uniform(.05, 4) ** (1 / self.n) for _ in range(6)]
            lev = [ie * math.exp(l.b * (1 - u)) for u in us]
            if g.random() < .5:
                r = np.ravel(isophotal_radius(np.array(lev), flux, self.rh, flux_radius=within, sersic=self.n))
            else:
                r = [isophotal_radius(v, flux, self.rh, flux_radius=within, sersic=self.n) for v in lev]
            for u, v, x in zip(us, lev, r):
                out.append(dict(level=I(-u, 1e6), got=I(x / self.rh, 1e4), rel=rel(x, self.rh * u ** self.n)))
            return [dict(op="pairs", what="the effective brightness is not that of the flux", n=1, pairs=[rel(got, ie)], tol=20),
                    dict(op="isophote", asked=out)]
        return self.add(fn, op="isophote")

    def inverse(self):
        g, l = self.rng, self.l
        fr = [.5, g.uniform(.01, .99), g.uniform(.9, .999)]

        def fn():
            out = []
            for f in fr:
                r = float(so.rfrac_from_halfn(f, n=self.n, rh=self.rh))
                out += [rel(l.enclosed(r), f), rel(frac_sersic(r, rhalf=self.rh, sersic=self.n), f)]
            return dict(pairs=out, n=6, tol=20, what="the radius of a fraction of the light does not hold it")
        return self.add(fn, op="pairs")

    def shape(self):
        g, l = self.rng, self.l
        s = self.rh * 10 ** g.uniform(-1.7, -.75)
        x = np.array([g.uniform(.05, 20) * s for _ in range(5)] + [self.rh * g.uniform(.3, 3) for _ in range(3)])
        near = (x < (8 if self.n < 1 or self.n > 5 else 12) * s)
        far = x > 15.1 * s

        def fn():
            a = so.sersic_profile(x, n=self.n, rh=self.rh)
            b = so.sersic_profile(x.copy(), n=self.n, rh=self.rh, sigma=s)
            one = so.sersic_profile(np.array([self.rh]), n=self.n, rh=self.rh)
            return [dict(op="pairs", what="the profile is not the Sersic profile", n=len(x) + 1, tol=20, pairs=[rel(p, l.shape(v)) for p, v in zip(a, x)] + [rel(one[0], 1.)]),
                    dict(op="pairs", what="the smoothed profile is not the convolved one", n=int(near.sum()), tol=5000, pairs=[rel(p, l.smooth(v, s)) for p, v, q in zip(b, x, near) if q]),
                    dict(op="pairs", what="the smoothed profile leaves the profile at large radii", n=int(far.sum()), tol=20, pairs=[rel(p, l.shape(v)) for p, v, q in zip(b, x, far) if q])]
        return self.add(fn, op="pairs")

    def parts(self):
        """mixtures of Gaussians: cumulative light, densities, misfit"""
        g = self.rng
        k = g.randint(1, 5)
        amps, disps = np.array([g.uniform(.05, 2) for _ in range(k)]), np.array([10 ** g.uniform(-1, .7) for _ in range(k)])
        if g.random() < .4:
            disps[0] = 0.
        x = np.array(sorted(g.uniform(.05, 8) for _ in range(12)))
        n = len(x)

        def fn():
            with np.errstate(all="ignore"):
                want = [sum(a * (1. if d == 0 else 1 - math.exp(-.5 * (v / d) ** 2)) for a, d in zip(amps, disps)) / amps.sum() for v in x]
            out = [dict(op="pairs", what="the light of a mixture within a radius is another", n=n, tol=20, pairs=[rel(p, q) for p, q in zip(so.gauss_cfd(x, amps, disps), want)])]
            sm = 10 ** g.uniform(-1.5, -.3)
            d = np.hypot(disps, sm)
            mu = g.choice([0., g.uniform(-1, 1)])
            w1 = [sum(a / (s * math.sqrt(2 * math.pi)) * math.exp(-.5 * ((v - mu) / s) ** 2) for a, s in zip(amps, d)) for v in x]
            big = max(w1)
            out.append(dict(op="pairs", what="Gaussians laid down on a line are not the sum of the densities", n=n, tol=5, pairs=[[I(p / big, 1e6), I(q / big, 1e6)] for p, q in zip(so.normal_oned(x, mu, amps, d), w1)]))
            target = np.array([self.l.shape(v * self.rh / 2) for v in x])
            lnr = np.log(disps)
            free = g.random() < .4 and (disps > 0).all()
            par = np.concatenate([np.log(amps), lnr]) if free else np.log(amps)
            kw = dict(x=x, target=target, radii=None if free else lnr, smoothing=sm)
            p0 = par.copy()
            c2, xx, tt, gm = so.chisq(par, return_models=True, **kw)
            c1 = so.chisq(par, **kw)
            model = mixture(x, amps, d)
            dl = (model - target) / target
            wc = 1e-2 * np.sum(dl ** 2 * target * x) / np.sum(target * x)
            same = np.array_equal(par, p0) and np.array_equal(xx, x) and np.array_equal(tt, target)
            big = model.max()
            out.append(dict(op="pairs", what="the model compared with the profile is not the mixture's", n=n, tol=5, pairs=[[I(p / big, 1e6) if same else BAD, I(q / big, 1e6)] for p, q in zip(gm, model)]))
            out.append(dict(op="pairs", what="the misfit is not that of the model", n=2, tol=20, pairs=[rel(c1, wc), rel(c2, wc)]))
            pen = g.uniform(.1, 3), g.uniform(.5, 3)
            c3 = so.chisq(par, arpenalty=pen[0], arscale=pen[1], **kw)
            wp = wc + pen[0] * np.sum(amps / (d * math.sqrt(2 * math.pi)) * np.exp(d / pen[1]))
            la = np.log(amps / (d * math.sqrt(2 * math.pi)))
            D = 2 * np.eye(k) - np.eye(k, k=1) - np.eye(k, k=-1)
            sm_ = g.uniform(.1, 3)
            c4 = so.chisq(par, asmooth=sm_, **kw)
            out.append(dict(op="pairs", what="a penalty is not the one asked for", n=2, tol=20, pairs=[rel(c3, wp), rel(c4, wc + sm_ * np.sum((D @ la) ** 2))]))
            return out
        return self.add(fn, op="pairs")

    def image(self):
        """the two-dimensional model and its priors"""
        g = self.rng
        k = g.randint(1, 4)
        w, rad = np.array([g.uniform(.05, 2) for _ in range(k)]), np.array([g.uniform(.5, 4) for _ in range(k)])
        x0, y0, a, bg = g.uniform(-2, 2), g.uniform(-2, 2), g.uniform(.2, 3), g.choice([0., g.uniform(-.2, .2)])
        xp, yp = np.array([g.uniform(-6, 6) for _ in range(15)]), np.array([g.uniform(-6, 6) for _ in range(15)])

        def fn():
            with mock.patch.object(st2, "jnp", np, create=True):
                ln = g.random() < .5
                kw = dict(lnW=np.log(w)) if ln else dict(weight=w)
                got = st2.sersic_prediction(xp, yp, x=x0, y=y0, a=a, radii=list(rad), bg=bg, **kw)
                sep = st2.sersic_prediction(xp, yp, x=x0, y=y0, a=a, radii=list(rad), bg=bg, separate=True, **kw)
            one = a * w / (2 * np.pi * rad ** 2) * np.exp(-.5 * ((xp[:, None] - x0) ** 2 + (yp[:, None] - y0) ** 2) / rad ** 2)
            want = one.sum(axis=1) + bg
            big = one.sum(axis=1).max()
            out = [dict(op="pairs", what="the image of a mixture is another", n=15, tol=5, pairs=[[I(p / big, 1e6), I(q / big, 1e6)] for p, q in zip(got, want)]),
                   dict(op="pairs", what="the images of the components are others", n=15 * k, tol=5, pairs=[[I(p / big, 1e6), I(q / big, 1e6)] for p, q in zip(np.ravel(sep), np.ravel(one))])]
            for pr in ("triangular", "finite-difference", "exp-squared"):
                m = g.randint(2, 6)
                sc = g.uniform(.2, .9)
                S = np.array(st2.get_kernel(m, pr, scale=sc))
                if pr == "triangular":
                    W = np.eye(m) + sc / 2 * (np.eye(m, k=1) + np.eye(m, k=-1))
                elif pr == "exp-squared":
                    W = np.array([[math.exp(-(i - j) ** 2 / (2 * sc ** 2)) for j in range(m)] for i in range(m)])
                else:
                    T = 2 * np.eye(m) - sc * (np.eye(m, k=1) + np.eye(m, k=-1))
                    W = np.linalg.inv(T @ T)
                    q = np.sqrt(np.diag(W))
                    W = W / q / q[:, None]
                out.append(dict(op="pairs", what="the prior correlation is another", n=m * m, tol=20, pairs=[[I(p, 1e6), I(q, 1e6)] for p, q in zip(S.ravel(), W.ravel())]))
            return out
        return self.add(fn, op="pairs")

    # ---- a galaxy source on a table of mixtures
    def open(self):
        g = self.rng
        self.work = tempfile.mkdtemp()
        k = g.randint(2, 5)
        self.ng = np.array(sorted(g.sample([.6, .8, 1., 1.5, 2., 2.7, 3.5, 4.5, 5.5, 7.], g.randint(4, 6))))
        self.rg = np.array(sorted(g.sample([.02, .05, .1, .17, .25, .4, .6, .9], g.randint(4, 6))))
        self.radii = np.array(sorted(10 ** g.uniform(-2.5, .3) for _ in range(k)))
        if g.random() < .5:
            self.radii[0] = 0.
        A = np.array([[g.uniform(.05, 1) for _ in range(k)] for _ in range(len(self.ng) * len(self.rg))])
        self.tabA = A / A.sum(axis=1)[:, None] if g.random() < .6 else A
        fn = os.path.join(self.work, "t.h5")
        with h5py.File(fn, "w") as f:
            f["nsersic"], f["rh"] = np.repeat(self.ng, len(self.rg)), np.tile(self.rg, len(self.ng))
            f["amplitudes"], f["radii"] = self.tabA, self.radii
        self.bands = g.sample(["u", "g", "r"], g.randint(1, 3))
        self.gal, exc = attempt(lambda: Galaxy(filternames=self.bands, splinedata=fn))
        if exc:
            self.evs.append(dict(op="set", exc=exc))
            return False
        return True

    def set(self):
        if self.work is None and not self.open():
            return False
        g = self.rng
        self.node = g.randrange(len(self.ng) * len(self.rg)) if g.random() < .6 else None
        if self.node is not None:
            n, r = self.ng[self.node // len(self.rg)], self.rg[self.node % len(self.rg)]
        else:
            n, r = g.uniform(self.ng[0], self.ng[-1]), g.uniform(self.rg[0], self.rg[-1])
        self.par = [g.uniform(.1, 50) for _ in self.bands] + [g.uniform(0, 300), g.uniform(-60, 60), g.uniform(.3, 1), g.uniform(-1.5, 1.5), n, r]
        return self.add(lambda: (self.gal.set_params(np.array(self.par)), dict(par=[I(v, 1e6) for v in self.par]))[1], op="set")

    def mixture(self):
        if self.work is None and not self.set():
            return False
        g = self.rng

        def fn():
            s = self.gal
            a = np.array(s.amplitudes)
            par = [I(v, 1e6) for v in s.get_param_vector()]
            out = []
            if self.node is not None:
                out.append(dict(op="ask", par=par, what="the amplitudes are not those tabulated for the profile", n=len(a), tol=5, pairs=[[I(p, 1e6), I(q, 1e6)] for p, q in zip(a, self.tabA[self.node])]))
            for what, d, i in (("sersic", s.damplitude_dsersic, -2), ("rhalf", s.damplitude_drh, -1)):
                h = 1e-4 * self.par[i]
                lo, hi = list(self.par), list(self.par)
                lo[i], hi[i] = lo[i] - h, hi[i] + h
                if not (self.ng[0] < lo[-2] and hi[-2] < self.ng[-1] and self.rg[0] < lo[-1] and hi[-1] < self.rg[-1]):
                    continue
                s.set_params(np.array(lo))
                al = np.array(s.amplitudes)
                s.set_params(np.array(hi))
                ah = np.array(s.amplitudes)
                s.set_params(np.array(self.par))
                sl = (ah - al) / (2 * h)
                big = np.abs(sl).max() + 1e-3
                out.append(dict(op="ask", par=[I(v, 1e6) for v in s.get_param_vector()], what="the slope of the amplitudes is another", n=len(a), tol=2000, pairs=[[I(p / big, 1e6), I(q / big, 1e6)] for p, q in zip(np.ravel(d), sl)]))
            r = np.array([10 ** g.uniform(-3, .5) for _ in range(10)])
            eps = g.choice([None, 10 ** g.uniform(-3, -1)])
            kw = {} if eps is None else dict(epsilon=eps)
            disps = np.hypot(self.radii, 2.5e-3 if eps is None else eps)
            b = g.choice([None] + self.bands)
            got = np.ravel(s.profile(r, **kw) if b is None else s.profile(r, band=b, **kw))
            f = 1. if b is None else self.par[self.bands.index(b)]
            comp = np.abs(np.array([mixture(r, np.where(np.arange(len(a)) == k, a, 0), disps) for k in range(len(a))])).sum(axis=0) * f
            want = mixture(r, a, disps) * f
            out.append(dict(op="ask", par=[I(v, 1e6) for v in s.get_param_vector()], what="the brightness profile of a source is not that of its mixture and flux", n=10, tol=5,
                            pairs=[[I(p / max(c, 1e-30), 1e6), I(q / max(c, 1e-30), 1e6)] for p, q, c in zip(got, want, comp)]))
            C = np.asarray(s.covariances)
            out.append(dict(op="ask", par=par, what="the component covariances are not the radii", n=4 * len(a), tol=5, pairs=[[I(p, 1e6), I(q, 1e6)] for p, q in zip(C.ravel(), np.array([np.eye(2) * x * x for x in self.radii]).ravel())]))
            return out
        return self.add(fn, op="ask")

    def close(self):
        if self.work:
            shutil.rmtree(self.work, ignore_errors=True)


def table(rng):
    """A file of fitted mixtures and the source that reads it."""
    g = rng
    work = tempfile.mkdtemp()
    ng = np.array(sorted(g.sample([.8, 1., 1.5, 2., 2.7, 3.5, 4.5], 4)))
    rg = np.array(sorted(g.sample([.5, .65, .8, 1.1, 1.5, 2.], 4)))
    lnr = np.linspace(math.log(g.uniform(.08, .3)), math.log(g.uniform(2, 4)), g.randint(2, 3))
    sm = g.choice([0., g.uniform(.03, .1)])
    pen = g.random() < .4
    kw = dict(asmooth=1e-8, arpenalty=1e-6) if pen else {}
    x = np.linspace(.05, 8, 40)
    root = os.path.join(work, "mog")
    stub = mock.MagicMock()
    two = mock.MagicMock(return_value=(mock.MagicMock(), mock.MagicMock()))

    def fn():
        with mock.patch.object(so, "pl", stub, create=True), mock.patch.object(so, "PdfPages", stub, create=True), \
             mock.patch.object(so, "plot_profiles", stub, create=True), mock.patch.object(so, "plot_amps", stub, create=True), mock.patch.object(so, "plot_cfd", two, create=True), \
             contextlib.redirect_stdout(io.StringIO()):
            name = so.fit_profiles(outroot=root, rgrid=rg.copy(), ngrid=ng.copy(), lnradii=lnr.copy(), smoothing=sm, x=x.copy(), **kw)
        with h5py.File(name, "r") as f:
            d = {k: f[k][:] for k in f}
            at = dict(f.attrs)
        so.amplitude_table(name)
        lines = [l.split() for l in open(root + ".tbl") if l.strip() and not l.startswith("#")]
        disps0 = np.exp(lnr) if sm == 0 else np.concatenate([[0.], np.exp(lnr)])
        meta = name == root + ".h5" and np.allclose(d["radii"], disps0) and np.allclose(d["x"], x) and math.isclose(at["smoothing"], sm) and math.isclose(at["smooth_amplitudes"], kw.get("asmooth", 0.))
        meta = bool(meta) and len(lines) == len(ng) * len(rg)
        disps = np.hypot(disps0, sm)
        gal = Galaxy(filternames=["b"], splinedata=name)
        rows = []
        use = x < 2 * disps0.max()
        for i, (n, r) in enumerate((n, r) for n in ng for r in rg):
            l = Light(n, r)
            A = d["amplitudes"][i].astype(float)
            tr, ss, mo = (d[k][i].astype(float) for k in ("truth", "smooth_sersic", "model"))
            mx = mixture(x, A, disps)
            c = mo.sum() / mx.sum()
            wt = np.array([l.shape(v) for v in x])
            ks = [0, 1, 2, 3, 5, 9]
            okk = np.array([sm == 0 or x[k] < (8 if n < 1 else 12) * sm for k in ks])
            ws = np.array([wt[k] if sm == 0 else l.smooth(x[k], sm) for k in ks])
            smd = float(np.max(np.abs(ss[ks] / ws - 1)[okk], initial=0))
            delta = (mo - ss)[use] / ss[use]
            wgt = (ss * x)[use]
            chi = 1e-2 * np.sum(delta ** 2 * wgt) / np.sum(wgt)
            start = 1e-2 * np.sum((mixture(x[use], np.full(len(disps), math.exp(1e-5)), disps) / ss[use] - 1) ** 2 * wgt) / np.sum(wgt)
            gal.set_params(np.array([1., 0, 0, 1, 0, d["nsersic"][i], d["rh"][i]]))
            ga = np.array(gal.amplitudes)
            pr = np.ravel(gal.profile(x, epsilon=sm if sm else 1e-6))
            t = [float(v) for v in lines[i]] if i < len(lines) else []
            tx = max([abs(p - q) for p, q in zip(t[2:], A)] + [0 if len(t) == 2 + len(A) else 9]) + (abs(t[0] - n) > .051) + (abs(t[1] - r) > .0051)
            rows.append(dict(key=[I(d["nsersic"][i], 1e4), I(d["rh"][i], 1e4)], want=[I(n, 1e4), I(r, 1e4)], total=[I(A.sum(), 1e6), 1000000], neg=bool((A < 0).any()),
                             model=I(np.max(np.abs(mo / c - mx)) / mx.max(), 1e6), truth=I(np.max(np.abs(tr - wt) / wt), 1e6), smooth=I(smd, 1e6),
                             chi=[] if pen else rel(d["chisq"][i], chi), start=[] if pen else [I(chi, 1e8), I(min(start, 10), 1e8)],
                             read=I(np.max(np.abs(ga - A)), 1e6), shape=I(np.max(np.abs(pr - mx)) / mx.max(), 1e6), text=I(tx, 1e6)))
        return dict(rows=rows, n=len(ng) * len(rg), meta=meta)
    try:
        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            v, exc = attempt(fn)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return dict(op="table", exc=exc) if exc else dict(v, op="table")


def free(rng):
    """A fit with free radii: the misfit reported belongs to the parameters reported and does not exceed the one at the start."""
    g = rng
    n, rh, k = g.uniform(1, 4), g.uniform(.5, 2), g.randint(1, 3)
    x = np.linspace(.05, g.uniform(4, 8), 30)
    l = Light(n, rh)
    target = np.array([l.shape(v) for v in x])

    def chi(p):
        m = mixture(x, np.exp(p[:k]), np.exp(p[k:]))
        return 1e-2 * np.sum((m / target - 1) ** 2 * target * x) / np.sum(target * x)

    def fn():
        r = so.fit_gaussians(nsersic=n, rh=rh, ncomp=k, x=x.copy())
        p = np.array(r.x, dtype=float)
        return dict(what="a fit with free radii does not report its own misfit", n=1, tol=50, pairs=[rel(r.fun, chi(p)) if p.shape == (2 * k,) else [BAD, 0]])
    with np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        v, exc = attempt(fn)
    return dict(op="pairs", exc=exc) if exc else dict(v, op="pairs")


def run_case(case):
    rng = random.Random(case["rseed"])
    if case["h"] == "table":
        return dict(cfg={}, ev=[table(rng), free(rng)])
    s = Session(rng)
    try:
        for q in case["h"]:
            if q == "set" and rng.random() < .3:
                s.new()
                s.evs.append(dict(op="enclosed", pts=[], want=[]))
            if not getattr(s, q)():
                break
    finally:
        s.close()
    return dict(cfg={}, ev=s.evs)


def run(c):
    rng = c.rng
    hist = c.model("MCProfile", dict(R=3, L=2, Depth=c.q(3, 4)), invariants=["Grows", "Moment", "Nested", "HalfIsHalf", "Same", "NoMemory"], timeout=900)
    c.extra["model_behaviours"] = len(hist)
    alt = {"inverse": ["inverse", "shape"], "mixture": ["mixture", "mixture", "parts", "image"]}
    cases = []
    for h in hist:
        for _ in range(c.q(3, 4)):
            cases.append(dict(h=[rng.choice(alt.get(q, [q])) for q in h], rseed=rng.randint(0, 2 ** 31)))
    cap = c.q(600, 4000)
    if len(cases) > cap:
        cases = rng.sample(cases, cap)
    tr = c.execute(run_case, cases)
    c.validate("ProfileTrace", tr, cases, label="profile sessions")
    cases = [dict(h="table", rseed=rng.randint(0, 2 ** 31)) for _ in range(c.q(24, 160))]
    tr = c.execute(run_case, cases)
    c.validate("ProfileTrace", tr, cases, label="fitted tables")
    c.assumptions += ["Sersic indices between 0.55 and 6 (0.8 to 4.5 for fitted tables), smoothing between 2% and 20% of the half-light radius",
                      "isophotes no brighter than the centre of the profile; plots are replaced by stand-ins",
                      "the sampling fit of the two-dimensional mixture (needs jax and numpyro) cannot run here; its model image and priors are checked with numpy in the place of jax"]
