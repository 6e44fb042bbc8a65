"""C19: images, likelihoods and gradients of the compiled kernel and of the Python reference."""
import copy, math, os, random, shutil, tempfile, warnings

import h5py
import numpy as np
from astropy.wcs import WCS

from vlib.core import attempt
from drivers.pixels import header
from forcepho.patches import CPUPatchMixin
from forcepho.patches.static_patch import StaticPatch
from forcepho.patches.pixel_patch import DirectPatch
from forcepho.patches.storage import PSF_DTYPE
from forcepho.proposal import CPUProposer
from forcepho.slow.gaussmodel import convert_to_gaussians
from forcepho.slow.likelihood import FastWorkPlan, WorkPlan, lnlike_multi, make_image, negative_lnlike_multi, plan_sources
from forcepho.slow.psf import PointSpreadFunction, get_psf, make_psf
from forcepho.slow import stamp as slowstamp
from forcepho.slow.stamp import PostageStamp
from forcepho.sources import ConformalShearGalaxy, Galaxy, Scene, SimpleGalaxy, Star
from forcepho.utils import wcs as uwcs

Q = 1 << 22
HI, BAD = 8e8, 950000000


class SP(StaticPatch, CPUPatchMixin):
    pass


class Tweak:
    """A patch that applies the photometric tweaks of the headers."""

    def _pack_fluxcal(self, hdrs, **kw):
        return super()._pack_fluxcal(hdrs, tweakphot="TWEAK", **kw)


class DP(DirectPatch, CPUPatchMixin):
    pass


def fx(a, s=1.):
    v = np.asarray(a, dtype=float) / s * Q
    v = np.where(np.isfinite(v) & (np.abs(v) < HI), np.round(v), BAD)
    return int(v) if v.ndim == 0 else v.astype(int).tolist()


def pow2(x):
    return 2. ** math.ceil(math.log2(x)) if x > 0 and math.isfinite(x) else 1.


class Kit:
    """Mixture tables with amplitudes that are known polynomials."""

    def __init__(self, rng, work, radii=None, poly=None):
        self.rng = rng
        if radii is None:
            nr = rng.choice([1, 2, 3, 3, 4])
            first = 0. if rng.random() < .4 else rng.uniform(.01, .05)
            radii = np.array([first + .15 * k / max(nr - 1, 1) * rng.uniform(.8, 1.2) for k in range(nr)])
            radii = np.sort(radii)
            poly = [[rng.uniform(.2, .5), rng.uniform(-.03, .05), rng.uniform(-.4, .4), rng.uniform(-.08, .08), rng.uniform(-.3, .3)] for _ in range(nr)]
        self.radii, self.poly = np.array(radii), poly
        self.spl = os.path.join(work, "k%d.h5" % rng.randrange(10 ** 9))
        ns, rs = np.linspace(1, 5, 7), np.linspace(.03, .43, 9)
        n, r = [a.reshape(-1) for a in np.meshgrid(ns, rs, indexing="ij")]
        A = np.stack([sum(c * t for c, t in zip(p, (np.ones_like(n), n, r, n * r, r * r))) for p in self.poly], -1)
        with h5py.File(self.spl, "w") as f:
            f["nsersic"], f["rh"], f["amplitudes"], f["radii"] = n, r, A, self.radii

    def amps(self, n, r):
        return [p[0] + p[1] * n + p[2] * r + p[3] * n * r + p[4] * r * r for p in self.poly]

    def gauss(self, m, arcsec=False):
        """A PSF mixture: rows (a, x, y, cxx, cyy, cxy)."""
        g = self.rng
        a = np.array([g.uniform(.3, 1) for _ in range(m)])
        if g.random() < .2 and m > 1:
            a[-1] = -.2
        a /= a.sum()
        rows = []
        for j in range(m):
            sx, sy, c = g.uniform(.9, 2.2), g.uniform(.9, 2.2), g.uniform(-.6, .6)
            u = .15 if arcsec else 1.
            rows.append((a[j], u * g.uniform(-.5, .5), u * g.uniform(-.5, .5), (u * sx) ** 2, (u * sy) ** 2, c * sx * sy * u * u))
        return rows


def psfobj(rows, units="pixels"):
    dt = np.dtype([(c, "<f8") for c in ("amp", "xcen", "ycen", "Cxx", "Cyy", "Cxy")])
    p = PointSpreadFunction(units=units)
    d = np.array([tuple(r) for r in rows], dtype=dt)
    # (the constructor takes either name for the centres)
    p.n_gauss = len(rows)
    p.amplitudes = d["amp"].copy()
    p.means = np.stack([d["xcen"], d["ycen"]], -1)
    p.covariances = np.array([[[r["Cxx"], r["Cxy"]], [r["Cxy"], r["Cyy"]]] for r in d])
    return p


def psfev(lists, arcsec):
    """Fixed point PSF gaussians; lists[m] belongs to mixture component m."""
    return [dict(m=m + 1, a=fx(r[0]), x=fx(r[1]), y=fx(r[2]), cxx=fx(r[3]), cyy=fx(r[4]), cxy=fx(r[5])) for m, rows in enumerate(lists) for r in rows]


def spec_source(kind, row, nb, kit, extra=None):
    """The source as the specification sees it."""
    if kind == "S":
        q, pa, amp, rad = 1., 0., [1.], [0.]
    elif kind == "E":
        q, pa, rad = row["q"], row["pa"], extra
        amp = [1. / len(rad)] * len(rad)
    else:
        if kind in ("C", "C2"):
            e = math.hypot(row["ep"], row["ec"])
            q, pa = math.exp(-e / 2), math.atan2(row["ec"], row["ep"]) / 2
        else:
            q, pa = row["q"], row["pa"]
        amp, rad = kit.amps(row["sersic"], row["rhalf"]), kit.radii
    return dict(flux=fx(row["flux"]), q=fx(q), c=fx(math.cos(pa)), s=fx(math.sin(pa)), amp=fx(amp), rad=fx(rad))


def some(rng, nx, ny, cens, n=24):
    px = [(x, y) for x in range(nx) for y in range(ny)]
    if len(px) > n:
        near = sorted(px, key=lambda p: min((p[0] - c[0]) ** 2 + (p[1] - c[1]) ** 2 for c in cens))[:len(px) // 2]
        px = rng.sample(near, min(len(near), n // 2)) + rng.sample(px, n // 2)
        px = sorted(set(px))
    return px


def rand_D(g):
    s, t = g.uniform(4.5, 10), g.choice([0, g.uniform(0, 6.28)])
    k = g.choice([0, 0, g.uniform(-.25, .25)])
    f = g.choice([-1, 1])
    R = np.array([[math.cos(t), -math.sin(t)], [math.sin(t), math.cos(t)]])
    return s * R @ np.array([[f, k], [0, g.choice([1., g.uniform(.8, 1.2)])]])


def rows_of(g, kind, nb, offset):
    r = dict(flux=[g.choice([g.uniform(.3, 3), g.uniform(.3, 3), g.uniform(-1, 1), 0.]) for _ in range(nb)], ra=offset[0], dec=offset[1])
    if kind in ("C", "C2"):
        e, t = g.uniform(.1, 1.), g.uniform(0, 6.28)
        r.update(ep=e * math.cos(t), ec=e * math.sin(t))
    else:
        r.update(q=g.uniform(.55, 1.), pa=g.uniform(-1.7, 1.7))
    r.update(sersic=g.uniform(1.1, 4.8), rhalf=g.uniform(.04, .4))
    return r


def event(evs, fn, **ev):
    r, exc = attempt(fn)
    if exc:
        ev["exc"] = exc
        evs.append(ev)
    elif r is not None:
        evs.extend(r if isinstance(r, list) else [dict(ev, **r)])


def jnorm(J, rw2):
    return np.abs(J * rw2).sum(-1)


# ---------------------------------------------------------------- A: StaticPatch against the reference
def static(rng, work, pick=None):
    g = rng
    evs = []
    if pick:
        kit = Kit(g, work, [0., .1, .2], [[.25, 0, 0, 0, 0], [.25, 0, 0, 0, 0], [.5, 0, 0, 0, 0]])
        nb, nsrc, nexp = 1, 1, [1]
    else:
        kit = Kit(g, work)
        nb, nsrc = g.randint(1, 3), g.choice([1, 2, 3])
        nexp = [g.randint(1, 2) for _ in range(nb)]
    names = g.sample(["F090W", "g", "HST_I", "zz"], nb)
    ids = sorted(g.sample(range(12), nb))
    dec0 = g.uniform(-60, 60)
    cosd = math.cos(math.radians(dec0))
    distinct = not pick and g.random() < .4          # different PSFs per mixture radius (the reference knows one)
    rows = []
    for k in range(nsrc):
        off = (g.uniform(-.25, .25) / 3600 / cosd, g.uniform(-.25, .25) / 3600)
        rows.append(rows_of(g, "G", nb, off))
    if pick:
        rows[0].update(q=[1., .6][pick["q"] - 1], pa=[0., math.pi / 4, -math.atan2(.8, .6)][pick["pa"] - 1], flux=[1.])
    stamps, meta = [], []
    npsf = [g.randint(1, 3) for _ in range(nb)]
    for b in range(nb):
        for _ in range(nexp[b]):
            nx, ny = g.randint(3, 9), g.randint(3, 9)
            D0 = rand_D(g)
            G = g.choice([1., 1., g.uniform(.5, 2)])
            crpix = np.array([g.uniform(1, nx - 2), g.uniform(1, ny - 2)])
            crval = np.array([g.choice([0., g.uniform(-.1, .1) / 3600]), g.choice([0., g.uniform(-.1, .1) / 3600])])
            at = []
            for k in range(nsrc):
                D = D0 @ (np.eye(2) + (0 if pick else np.array([[g.uniform(-.05, .05) for _ in range(2)] for _ in range(2)])))
                rowsets = [kit.gauss(npsf[b])] * len(kit.radii)
                if pick:
                    t = [[[1, 0], [0, 1]], [[0, -1], [1, 0]], [[-1, 0], [0, -1]], [[0, 1], [-1, 0]], [[-1, 0], [0, 1]], [[0, 1], [1, 0]], [[1, 0], [0, -1]], [[0, -1], [-1, 0]]][pick["turn"] - 1]
                    s = [5., 9.][pick["scale"] - 1]
                    D = np.array(t, dtype=float) @ np.array([[s, [0, .5][pick["skew"] - 1] * s], [0, s]])
                    rowsets = [[(1., 0., 0., 1., 1., 0.)] if pick["psf"] == 1 else [(.7, .125, -.125, 2., 1., .5), (.3, 0., .25, 1., 3., -.5)]] * 3
                if distinct:
                    rowsets = [kit.gauss(npsf[b]) for _ in kit.radii]
                W = np.diag([cosd, 1.])
                CW = D @ W * 3600 * (1 if pick else g.choice([1., g.uniform(.9, 1.1)]))
                at.append((D, CW, rowsets))
            st = PostageStamp(nx=nx, ny=ny, filtername=names[b])
            st.band, st.crpix, st.crval, st.photocounts = ids[b], crpix, crval, G
            st.pixel_values = np.array([[g.uniform(-.3, .8) for _ in range(ny)] for _ in range(nx)])
            st.ierr = np.array([g.choice([0., g.uniform(.1, 1), g.uniform(.1, 1)]) for _ in range(nx * ny)])
            stamps.append(st)
            meta.append(dict(b=b, G=G, at=at, crpix=crpix, crval=crval, nx=nx, ny=ny))
    if pick and pick["off"] == 1:
        rows[0]["ra"], rows[0]["dec"] = meta[0]["crval"]
    if pick:
        npsf = [len(meta[0]["at"][0][2][0])]
    srcs = []
    for k, r in enumerate(rows):
        s = Galaxy(filternames=list(names), splinedata=kit.spl)
        s.set_params(np.array(r["flux"] + [r[c] for c in ("ra", "dec", "q", "pa", "sersic", "rhalf")]))
        s.stamp_scales = [m["at"][k][0] for m in meta]
        s.stamp_cds = [m["at"][k][1] for m in meta]
        s.stamp_psfs = [[psfobj(x) for x in m["at"][k][2]] for m in meta]
        s.stamp_crpixs = [m["crpix"] for m in meta]
        s.stamp_crvals = [m["crval"] for m in meta]
        s.stamp_zps = [m["G"] for m in meta]
        s.stamp_filterindex = [m["b"] for m in meta]
        srcs.append(s)
    scene = Scene(srcs)
    scene.npsf_per_source = np.array([n * len(kit.radii) for n in npsf])
    theta = np.array(scene.get_all_source_params())
    out = {}

    def kernel():
        p = SP(stamps, scene, return_residual=True)
        p.send_to_device()
        pr = CPUProposer()
        chi, der, res = pr.evaluate_proposal(scene.get_proposal(), patch=p, unpack=False)
        res = pr.unpack_residuals(res, p, reshape=True)
        d2 = sum((np.asarray(s.pixel_values).reshape(-1) ** 2 * s.ierr ** 2).sum() for s in stamps)
        im = [np.asarray(s.pixel_values).reshape(-1) - np.asarray(r, dtype=float).reshape(-1) for s, r in zip(stamps, res)]
        grad = []
        for k in range(nsrc):
            grad += [-.5 * der[b, k, 0] for b in range(nb)] + list(-.5 * der[:, k, 1:].astype(float).sum(0))
        return im, -.5 * (float(np.sum(chi)) + d2), np.array(grad), d2

    def image():
        kim, klnl, kg, d2 = kernel()
        out.update(klnl=klnl, kg=kg, d2=d2)
        exps = []
        for e, m in enumerate(meta):
            cens = [m["crpix"] + m["at"][k][1] @ (np.array([rows[k]["ra"], rows[k]["dec"]]) - m["crval"]) for k in range(nsrc)]
            px = some(g, m["nx"], m["ny"], cens)
            x = dict(band=m["b"] + 1, G=fx(m["G"]), arcsec=False, px=[list(p) for p in px])
            x["at"] = [dict(D=fx(D), cen=fx(cens[k]), M=fx(CW / 3600), d=fx((np.array([rows[k]["ra"], rows[k]["dec"]]) - m["crval"]) * 3600), crpix=fx(m["crpix"]),
                            psf=psfev(ps, False)) for k, (D, CW, ps) in enumerate(m["at"])]
            x["kernel"] = fx([kim[e][a * m["ny"] + b] for a, b in px])
            if not distinct:
                im, _ = make_image(scene, stamps[e], stamp_index=e)
                x["slow"] = fx([im[a, b] for a, b in px])
            exps.append(x)
        return dict(src=[spec_source("G", r, nb, kit) for r in rows], exps=exps)
    event(evs, image, op="image")

    def both():
        plans = [(FastWorkPlan if g.random() < .5 else WorkPlan)(s) for s in stamps]
        lnl, grad = lnlike_multi(theta, scene, plans, source_meta=True)
        norm = np.zeros(len(theta))
        c2 = 0.
        for e, s in enumerate(stamps):
            im, J = make_image(scene, s, stamp_index=e)
            r = (np.asarray(s.pixel_values) - im).reshape(-1)
            c2 += (r * r * s.ierr ** 2).sum()
            inds = sum([scene.param_indices(k, s.filtername) for k in range(nsrc)], [])
            norm[inds] += jnorm(J, r * s.ierr ** 2)
        norm = np.maximum(norm, 1e-3 * max(norm.max(), 1e-9)) + 1e-9
        scale = out["d2"] + c2 + 1e-6
        return dict(lnk=fx(out["klnl"], scale), lns=fx(lnl, scale), gk=fx(out["kg"] / norm), gs=fx(np.asarray(grad) / norm))
    if not distinct and out:
        event(evs, both, op="both")
    return evs


# ---------------------------------------------------------------- B: the reference with stamps
CLS = dict(G=Galaxy, G2=Galaxy, E=SimpleGalaxy, S=Star, C=ConformalShearGalaxy, C2=ConformalShearGalaxy)
PARS = dict(G=["q", "pa", "sersic", "rhalf"], G2=["q", "pa"], E=["q", "pa"], S=[], C=["ep", "ec", "sersic", "rhalf"], C2=["ep", "ec"])


def slow(rng, work):
    g = rng
    evs = []
    kit = Kit(g, work)
    nb = g.randint(1, 3)
    names = g.sample(["F090W", "g", "HST_I", "zz"], nb)
    dec0 = g.uniform(-60, 60)
    ra0 = g.uniform(10, 350)
    cosd = math.cos(math.radians(dec0))
    stamps, meta = [], []
    for e in range(g.randint(1, 3)):
        nx, ny = g.randint(3, 8), g.randint(3, 8)
        b = g.randrange(nb)
        D = rand_D(g)
        units = g.choice(["pixels", "pixels", "arcsec"])
        prow = kit.gauss(g.randint(1, 3), units == "arcsec")
        st = PostageStamp(nx=nx, ny=ny, filtername=names[b])
        st.id, st.scale, st.dpix_dsky = e, D, D @ np.diag([cosd, 1.]) * 3600
        st.crpix = np.array([g.uniform(1, nx - 2), g.uniform(1, ny - 2)])
        st.crval = np.array([ra0, dec0])
        st.photocounts = g.choice([1., g.uniform(.5, 2)])
        st.psf = psfobj(prow, units)
        st.pixel_values = np.array([[g.uniform(-.3, .6) for _ in range(ny)] for _ in range(nx)])
        st.ierr = np.array([g.choice([0., g.uniform(.1, .7), g.uniform(.1, .7)]) for _ in range(nx * ny)])
        stamps.append(st)
        meta.append(dict(b=b, D=D, prow=prow, arcsec=units == "arcsec"))
    kinds = [g.choice(["G", "G", "G2", "E", "S", "C", "C", "C2"]) for _ in range(g.randint(1, 3))]
    rows, srcs, extras = [], [], []
    for kind in kinds:
        r = rows_of(g, kind, nb, (ra0 + g.uniform(-.3, .3) / 3600 / cosd, dec0 + g.uniform(-.3, .3) / 3600))
        kw = dict(filternames=list(names))
        if kind in ("G", "G2", "C", "C2"):
            kw.update(splinedata=kit.spl, free_sersic=kind in "GC")
        s = CLS[kind](**kw)
        ex = None
        if kind == "E":
            ex = [g.uniform(.03, .2) for _ in range(g.randint(1, 3))]
            s.radii = np.array(ex)
        if kind in ("G2", "C2"):
            s.sersic, s.rhalf = r["sersic"], r["rhalf"]
        s.set_params(np.array(r["flux"] + [r["ra"], r["dec"]] + [r[c] for c in PARS[kind]]))
        s.fixed = len(srcs) > 0 and g.random() < .25
        rows.append(r)
        srcs.append(s)
        extras.append(ex)
    scene = Scene(srcs)
    theta = np.array(scene.get_all_source_params(), dtype=float)
    spec = [spec_source(k, r, nb, kit, x) for k, r, x in zip(kinds, rows, extras)]

    def image():
        exps = []
        for e, (st, m) in enumerate(zip(stamps, meta)):
            sky = [np.array([r["ra"], r["dec"]]) - st.crval for r in rows]
            cens = [st.crpix + m["D"] @ (np.array([cosd, 1.]) * o * 3600) for o in sky]
            px = some(g, st.nx, st.ny, cens)
            x = dict(band=m["b"] + 1, G=fx(st.photocounts), arcsec=m["arcsec"], px=[list(p) for p in px])
            x["at"] = [dict(D=fx(m["D"]), cen=fx(cens[k]), M=fx(m["D"]), d=fx(sky[k] * np.array([cosd, 1.]) * 3600), crpix=fx(st.crpix),
                            psf=psfev([m["prow"]] * len(spec[k]["rad"]), m["arcsec"])) for k in range(len(rows))]
            how = g.randrange(3)
            if how == 0:
                im = make_image(scene, st)[0]
            elif how == 1:
                im = sum(s.render(st)[0] for s in srcs).reshape(st.nx, st.ny)
            else:
                im = sum(st.render(s, compute_deriv=g.random() < .5)[0] for s in srcs).reshape(st.nx, st.ny)
            x["slow"] = fx([im[a, b] for a, b in px])
            exps.append(x)
        return dict(src=spec, exps=exps)
    event(evs, image, op="image")

    def jac():
        """Image gradients of every source in a stamp, and differences of its image."""
        e = g.randrange(len(stamps))
        st = stamps[e]
        out = []
        for k, (kind, s) in enumerate(zip(kinds, srcs)):
            im, J = s.render(st)
            J = np.asarray(J)
            v0 = np.array(s.get_param_vector(st.filtername), dtype=float)
            steps = [1e-2, .003 / 3600 / cosd, .003 / 3600] + [dict(q=.004, pa=.01, ep=.004, ec=.004, sersic=.02, rhalf=.002)[c] for c in PARS[kind]]
            ja, fd = [], []
            for i, h in enumerate(steps):
                v = []
                for mlt in (-2, -1, 1, 2):
                    z = v0.copy()
                    z[i] += mlt * h
                    s.set_params(z, filtername=st.filtername)
                    v.append(np.asarray(s.render(st, compute_deriv=False)[0]))
                f = (8 * (v[2] - v[1]) - (v[3] - v[0])) / (12 * h)
                sc = max(np.abs(f).max(), 1e-4 / h * max(abs(v0[0]), .05))
                ja.append(fx(J[i], sc) if i < len(J) else [])
                fd.append(fx(f, sc))
            s.set_params(v0, filtername=st.filtername)
            if len(J) != len(steps):
                ja.append([1])
                fd.append([])
            out.append(dict(op="jac", jac=ja, fd=fd))
        return out
    event(evs, jac, op="jac")

    def lnl():
        neg = g.random() < .3
        more = []
        if g.random() < .4:
            # a plan in which every source is held fixed
            st = g.choice(stamps)
            fp = g.choice([WorkPlan, FastWorkPlan])(st)
            gigs = [convert_to_gaussians(s, st) for s in srcs]
            im = sum(np.asarray(s.render(st, compute_deriv=False)[0]) for s in srcs)
            if not np.abs(im).max() < 8:
                return dict(exc="image out of range")
            if g.random() < .5:
                l, _ = fp.lnlike(fixed=gigs)
            else:
                fp.fixed = gigs
                l, _ = fp.lnlike()
            more.append(dict(op="slow", exps=[dict(d=fx(np.asarray(st.pixel_values).reshape(-1)), w2=fx(st.ierr ** 2), im=fx(im))], lnl=fx(l), grad=[], jac=[]))
        plans = [g.choice([WorkPlan, FastWorkPlan])(s) for s in stamps]
        if g.random() < .3:
            lnlike_multi(theta, scene, plans)
        order = list(range(len(stamps)))
        r = negative_lnlike_multi(theta, scene=scene, plans=plans) if neg else lnlike_multi(theta, scene, plans)
        l, grad = (-r[0], -np.asarray(r[1])) if neg else (r[0], np.asarray(r[1]))
        J = np.zeros((len(theta), sum(s.npix for s in stamps)))
        exps, n = [], 0
        big = 0.
        for e in order:
            st = stamps[e]
            im = np.zeros(st.npix)
            for k, s in enumerate(srcs):
                a, j = s.render(st)
                im += a
                if not s.fixed:
                    J[scene.param_indices(k, st.filtername), n:n + st.npix] += j
            n += st.npix
            big = max(big, np.abs(im).max())
            exps.append(dict(d=fx(np.asarray(st.pixel_values).reshape(-1)), w2=fx(st.ierr ** 2), im=fx(im)))
        if not big < 8:
            return dict(exc="image out of range")
        sc = np.array([pow2(np.abs(j).max()) for j in J])
        return more + [dict(op="slow", exps=exps, lnl=fx(l), grad=fx(grad / sc), jac=[fx(j / c) for j, c in zip(J, sc)])]
    event(evs, lnl, op="slow")

    def each():
        """One source at a time out of a plan of free and fixed sources."""
        st = g.choice(stamps)
        plan = WorkPlan(st)
        plan_sources(plan, scene)
        seq = [s for s in srcs if not s.fixed] + [s for s in srcs if s.fixed]
        out = []
        for k in g.sample(range(len(seq)), len(seq)):
            want = np.asarray(seq[k].render(st, compute_deriv=False)[0])
            im = -np.asarray(plan.make_image(use_sources=slice(k, k + 1)))
            sc = max(np.abs(want).max(), 1e-6)
            out.append(dict(op="eq", a=fx(im.reshape(-1), sc), b=fx(want, sc), tol=40, what="a source's own image out of several is not its image"))
        na = sum(not s.fixed for s in srcs)
        want = sum(np.asarray(s.render(st, compute_deriv=False)[0]) for s in srcs if not s.fixed)
        other = theta.copy()
        other[:nb] *= 1.5
        if g.random() < .5:
            scene.set_all_source_params(other)
            im, _ = make_image(scene, st, Theta=theta, use_sources=slice(0, na))
        else:
            im, _ = make_image(scene, st, use_sources=slice(0, na))
        sc = max(np.abs(want).max(), 1e-6)
        out.append(dict(op="eq", a=fx(np.asarray(im).reshape(-1), sc), b=fx(want, sc), tol=40, what="the image of the free sources is not the sum of theirs"))
        return out
    event(evs, each, op="eq")
    return evs


# ---------------------------------------------------------------- C: DirectPatch with headers
def sip(h, g, amp):
    h["CTYPE1"], h["CTYPE2"] = "RA---TAN-SIP", "DEC--TAN-SIP"
    h["A_ORDER"], h["B_ORDER"] = 2, 2
    for p in "AB":
        for i, j in ((2, 0), (1, 1), (0, 2)):
            h["%s_%d_%d" % (p, i, j)] = g.uniform(-amp, amp)


def true_local(w, ra, dec, h=.5):
    """Sky to pixel derivative by central differences of the full astrometry."""
    x, y = [float(v) for v in w.all_world2pix(ra, dec, 0)]
    P = np.array([[x + h, y], [x - h, y], [x, y + h], [x, y - h]])
    s = np.stack(w.all_pix2world(P[:, 0], P[:, 1], 0), -1)
    S = np.array([(s[0] - s[1]) / (2 * h), (s[2] - s[3]) / (2 * h)]).T          # dsky/dpix
    S[0] -= np.round(S[0] * 2 * h / 360) * 360 / (2 * h)                        # right ascension is modulo 360
    CW = np.linalg.inv(S)
    return np.array([x, y]), CW, CW @ np.diag([1 / math.cos(math.radians(dec)), 1.]) / 3600


def direct(rng, work):
    g = rng
    evs = []
    kit = Kit(g, work)
    nb = g.randint(1, 3)
    names = g.sample(["F090W", "g", "HST_I", "zz"], nb)
    ra0, dec0 = g.uniform(5, 350), g.uniform(-60, 60)
    cosd = math.cos(math.radians(dec0))
    psf = os.path.join(work, "psf%d.h5" % g.randrange(10 ** 9))
    store = {}
    with h5py.File(psf, "w") as f:
        for b in names:
            loc = g.choice([1, 1, 3])
            m = [g.randint(1, 2) for _ in kit.radii]
            sets = [kit.gauss(k) for k in m]
            rr = [tuple(r) + (k,) for k, s in enumerate(sets) for r in s]
            order = list(range(len(rr)))
            g.shuffle(order)
            d = np.array([rr[i] for i in order], dtype=PSF_DTYPE)
            grp = f.create_group(b)
            grp.create_dataset("parameters", data=d[None, :])
            grp.attrs["n_psf_per_source"] = len(d)
            store[b] = sets
    nsrc = g.choice([1, 2, 3])
    rows = [rows_of(g, "G", nb, (ra0 + g.uniform(-.4, .4) / 3600 / cosd, dec0 + g.uniform(-.4, .4) / 3600)) for _ in range(nsrc)]
    pd, hd, exps = {}, {}, {}
    tweak = hasattr(DirectPatch, "_pack_fluxcal") and g.random() < .3
    cls = type("DPT", (Tweak, DP), {}) if tweak else DP
    for e in range(g.randint(nb, nb + 2)):
        b = e if e < nb else g.randrange(nb)
        nx, ny = g.randint(5, 9), g.randint(5, 9)
        dist = g.random() < .5
        # the reference of the header may be far from the sources
        x0, y0 = (g.uniform(-120, 150), g.uniform(-120, 150)) if g.random() < .6 else (g.uniform(0, nx), g.uniform(0, ny))
        sc = g.choice([.1, .13, .2])
        h = header(nx, ny, ra0, dec0, x0, y0, sc / 3600, g.choice([0, g.uniform(0, 6.28)]), g.random() < .3, names[b])
        if dist:
            sip(h, g, 3e-4)
        # put the sources on the pixels by choosing the reference
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            w = WCS(h)
            want = np.array([g.uniform(2, nx - 3), g.uniform(2, ny - 3)])
            r, d_ = [float(v) for v in w.all_pix2world(want[0], want[1], 0)]
            h["CRVAL1"] -= (r - ra0 + 180) % 360 - 180
            h["CRVAL2"] -= d_ - dec0
            w = WCS(h)
        x, y = [a.reshape(-1).astype(float) for a in np.meshgrid(np.arange(nx), np.arange(ny), indexing="ij")]
        perm = list(range(nx * ny))
        if g.random() < .5:
            g.shuffle(perm)
        x, y = x[perm], y[perm]
        if g.random() < .3:                            # pixel values can be anywhere
            x = x + g.randint(0, 2)
        n = len(x)
        key = "im%d" % e
        pd[key] = dict(flux=np.array([g.uniform(-.3, .6) for _ in range(n)]), ierr=np.array([g.uniform(.1, 1) for _ in range(n)]), xpix=x, ypix=y)
        hd[key] = h
        G = g.choice([1., .75, 1.25, 1.5]) if tweak else 1.
        h["TWEAK"] = G if tweak else g.choice([.5, 2.])
        exps[key] = dict(G=int(G * Q), b=b, w=w, x=x, y=y, dist=dist)
    dt = np.dtype([("id", "<i4"), ("source_index", "<i4")] + [(b, "<f8") for b in names] + [(c, "<f8") for c in ("ra", "dec", "q", "pa", "sersic", "rhalf")])
    cat = np.zeros(nsrc, dtype=dt)
    for k, r in enumerate(rows):
        cat[k]["id"], cat[k]["source_index"] = k, k
        for b, v in zip(names, r["flux"]):
            cat[k][b] = v
        for c in ("ra", "dec", "q", "pa", "sersic", "rhalf"):
            cat[k][c] = r[c]

    def image():
        p = cls(pixel_dict=pd, header_dict=hd, psfstore=psf, splinedata=kit.spl)
        p.build_patch(None, allbands=list(names))
        model, q = p.prepare_model(active=cat)
        how = g.random()
        if how < .5:
            res = model.residuals(np.array(q, dtype=float))
            ims = [np.asarray(pd[k]["flux"]) - np.asarray(r, dtype=float).reshape(-1)[:len(pd[k]["flux"])] for k, r in zip(p.epaths, res)]
        else:
            ims = [np.asarray(r, dtype=float).reshape(-1) for r in p.render(cat)]
        out = []
        for key, im in zip(p.epaths, ims):
            e = exps[key]
            at = []
            for r in rows:
                cen, CW, D = true_local(e["w"], r["ra"], r["dec"])
                if not e["dist"]:
                    D = np.linalg.inv(e["w"].pixel_scale_matrix) / 3600
                at.append(dict(D=fx(D), cen=fx(cen), psf=psfev(store[names[e["b"]]], False)))
            n = list(range(len(e["x"])))
            cc = [np.array(a["cen"]) / Q for a in at]
            n.sort(key=lambda i: min((e["x"][i] - c[0]) ** 2 + (e["y"][i] - c[1]) ** 2 for c in cc))
            n = n[:14] + g.sample(n[14:], min(8, len(n) - 14))
            out.append(dict(band=e["b"] + 1, G=e["G"], arcsec=False, at=at, px=[[int(e["x"][i]), int(e["y"][i])] for i in n], kernel=fx(im[n])))
        if sorted(p.epaths) != sorted(exps):
            return dict(exc="exposures missing")
        return dict(src=[spec_source("G", r, nb, kit) for r in rows], exps=out, loose=True)
    event(evs, image, op="image")

    def local():
        out = []
        for key, e in list(exps.items()):
            r = g.choice(rows)
            cen, CW, D = true_local(e["w"], r["ra"], r["dec"])
            S = pow2(np.abs(CW).max())
            T = pow2(np.abs(D).max())
            for impl in ("u", "u2", "s", "f"):
                approx = g.random() < .5
                if impl == "u":
                    a, b = uwcs.scale_at_sky((r["ra"], r["dec"]), e["w"], make_approx=approx)
                elif impl == "u2":
                    a, b = uwcs.scale_at_sky(np.array([r["ra"], r["dec"]]), e["w"], dpix=g.choice([.5, 2.]), make_approx=True)
                elif impl == "f":
                    a, b = uwcs.FWCS(e["w"]).scale_at_sky((r["ra"], r["dec"]), make_approx=approx)
                else:
                    a, b = slowstamp.scale_at_sky((r["ra"], r["dec"]), e["w"], make_approx=approx, origin=g.choice([0, 1]))
                out.append(dict(op="local", CW=fx(a, S), wantCW=fx(CW, S), D=fx(b, T), wantD=fx(D, T)))
            # on the meridian of the reference point, far from it: the scale is that of the position asked for
            w = WCS(naxis=2)
            w.wcs.ctype, w.wcs.crval, w.wcs.crpix = ["RA---TAN", "DEC--TAN"], [ra0, dec0], [5., 7.]
            w.wcs.cd = np.linalg.inv(rand_D(g)) / 3600
            w.wcs.set()
            pos = (ra0, dec0 + g.choice([-1, 1]) * g.uniform(.2, .5))
            cen, CW, D = true_local(w, *pos)
            S, T = pow2(np.abs(CW).max()), pow2(np.abs(D).max())
            for a, b in (uwcs.scale_at_sky(pos, w), uwcs.FWCS(w).scale_at_sky(pos), slowstamp.scale_at_sky(pos, w)):
                out.append(dict(op="local", CW=fx(a, S), wantCW=fx(CW, S), D=fx(b, T), wantD=fx(D, T)))
            # within a pixel of the origin of right ascension
            w = WCS(naxis=2)
            off = g.uniform(-1, 1) * 5e-5
            w.wcs.ctype, w.wcs.crval, w.wcs.crpix = ["RA---TAN", "DEC--TAN"], [off % 360, dec0], [5., 7.]
            w.wcs.cd = np.linalg.inv(rand_D(g)) / 3600
            w.wcs.set()
            px = np.linalg.norm(w.wcs.cd[:, 0])
            pos = (g.uniform(-1.2, 1.2) * px / math.cos(math.radians(dec0)) % 360, dec0)
            cen, CW, D = true_local(w, *pos)
            S, T = pow2(np.abs(CW).max()), pow2(np.abs(D).max())
            for a, b in (uwcs.scale_at_sky(pos, w, make_approx=True), uwcs.FWCS(w).scale_at_sky(pos, make_approx=True), slowstamp.scale_at_sky(pos, w, make_approx=True)):
                out.append(dict(op="local", CW=fx(a, S), wantCW=fx(CW, S), D=fx(b, T), wantD=fx(D, T)))
        return out
    event(evs, local, op="local")
    return evs


# ---------------------------------------------------------------- D: totals and positions on large grids
def moments(rng, work):
    g = rng
    evs = []
    kit = Kit(g, work)
    nx, ny = g.randint(44, 60), g.randint(44, 60)
    dec0 = g.uniform(-60, 60)
    cosd = math.cos(math.radians(dec0))
    D = rand_D(g)
    rows = rows_of(g, "G", 1, (g.uniform(-.2, .2) / 3600 / cosd, g.uniform(-.2, .2) / 3600))
    rows["flux"], rows["q"] = [g.uniform(.5, 200)], g.uniform(.7, 1)
    st = PostageStamp(nx=nx, ny=ny, filtername="b")
    st.band, st.scale, st.dpix_dsky = 3, D, D @ np.diag([cosd, 1.]) * 3600
    st.crpix, st.crval = np.array([nx / 2 + g.uniform(-3, 3), ny / 2 + g.uniform(-3, 3)]), np.zeros(2)
    st.photocounts = g.choice([1., g.uniform(.3, 4)])
    prow = [r[:1] + r[1:] for r in kit.gauss(g.randint(1, 3))]
    st.psf = psfobj(prow)
    st.ierr = np.ones(nx * ny)
    s = Galaxy(filternames=["b"], splinedata=kit.spl)
    s.set_params(np.array(rows["flux"] + [rows[c] for c in ("ra", "dec", "q", "pa", "sersic", "rhalf")]))
    s.stamp_scales, s.stamp_cds, s.stamp_crpixs, s.stamp_crvals = [D], [st.dpix_dsky], [st.crpix], [st.crval]
    s.stamp_psfs, s.stamp_zps, s.stamp_filterindex = [[st.psf] * len(kit.radii)], [st.photocounts], [0]
    scene = Scene([s])
    scene.npsf_per_source = np.array([len(prow) * len(kit.radii)])
    amp = sum(kit.amps(rows["sersic"], rows["rhalf"]))
    total = rows["flux"][0] * st.photocounts * amp
    cen = st.crpix + st.dpix_dsky @ np.array([rows["ra"], rows["dec"]])
    cen = cen + sum(r[0] * np.array(r[1:3]) for r in prow)

    def one(im):
        im = np.asarray(im, dtype=float).reshape(nx, ny)
        t = im.sum()
        x, y = np.meshgrid(np.arange(nx), np.arange(ny), indexing="ij")
        # unit area per pixel: positions in pixels
        return dict(op="moment", sum=fx(t, total), flux=Q, mean=fx([(im * x).sum() / t, (im * y).sum() / t]), cen=fx(cen))

    def go():
        def ker():
            p = SP([st], scene, return_residual=True)
            p.send_to_device()
            pr = CPUProposer()
            return -np.asarray(pr.unpack_residuals(pr.evaluate_proposal(scene.get_proposal(), patch=p, unpack=False)[2], p, reshape=True)[0], dtype=float)
        k = ker()
        # the faint wings, far below the tolerance on whole images
        want = np.asarray(s.render(st, compute_deriv=False)[0], dtype=float)
        pk = max(np.abs(want).max(), sum(abs(v.amp) for v in convert_to_gaussians(s, st).gaussians))
        far = np.flatnonzero(np.abs(want) < 2e-4 * pk)
        far = g.sample(list(far), min(len(far), 60))
        wings = dict(op="eq", a=[int(v) for v in np.clip(np.round(k.reshape(-1)[far] / pk * 1e9), -1e9, 1e9)], b=[int(v) for v in np.round(want[far] / pk * 1e9)],
                     tol=130, what="the compiled kernel loses the wings of a source")
        return [one(k), one(make_image(scene, st)[0]), one(s.render(st)[0]), wings]
    if amp > .3:
        event(evs, go, op="moment")
    return evs


# ---------------------------------------------------------------- E: stamps, PSFs, coordinates
def small(rng, work):
    g = rng
    evs = []
    nx, ny = g.randint(3, 9), g.randint(3, 9)
    st = PostageStamp(nx=nx, ny=ny, filtername="q")
    D = rand_D(g)
    dec0, ra0 = g.uniform(-60, 60), g.uniform(10, 350)
    cosd = math.cos(math.radians(dec0))
    st.scale, st.dpix_dsky = D, D @ np.diag([cosd, 1.]) * 3600
    st.crpix, st.crval = np.array([g.uniform(-50, 50), g.uniform(-50, 50)]), np.array([ra0, dec0])
    st.pixel_values = np.array([[g.uniform(-2, 2) for _ in range(ny)] for _ in range(nx)])
    st.ierr = np.array([g.uniform(.2, 2) for _ in range(nx * ny)])
    eq = lambda what, a, b, tol=60: dict(op="eq", what=what, a=fx(np.ravel(a)), b=fx(np.ravel(b)), tol=tol)
    fn = []
    off = np.array([g.uniform(-2, 2) / cosd, g.uniform(-2, 2)]) / 3600
    want = st.crpix + D @ (off * np.array([cosd, 1.]) * 3600)
    fn.append(lambda: [eq("sky to pixel is not the stamp's astrometry", st.sky_to_pix(st.crval + off), want, 800),
                       eq("pixel to sky is not the inverse", (np.asarray(st.pix_to_sky(want)) - st.crval) * 3600, off * 3600, 200)])
    fn.append(lambda: [eq("pixel coordinates of a stamp", st.xpix, [i for i in range(nx) for _ in range(ny)]),
                       eq("pixel coordinates of a stamp", st.ypix, [j for _ in range(nx) for j in range(ny)]),
                       eq("size of a stamp", [st.npix, *st.shape], [nx * ny, nx, ny])])

    def fits():
        hdul, w = st.to_fits()
        x, y = w.all_world2pix(*(st.crval + off), 0)
        return [eq("the stamp's header does not place the sky on its pixels", [x, y], want, 4000),
                eq("the exported image is not the stamp's", hdul[0].data, st.pixel_values.T, 8),
                eq("the exported uncertainties are not the stamp's", hdul[1].data, (1 / st.ierr).reshape(nx, ny).T, 16),
                eq("exporting a stamp changes its local astrometry", st.dpix_dsky / 3600, D @ np.diag([cosd, 1.]), 1000)]
    fn.append(fits)

    def exp():
        n = g.choice([1, 2, 4])
        one = g.random() < .5 or n == 1
        CW = np.array([rand_D(g) * 3600 for _ in range(1 if one else n)])
        if one:
            CW = np.array([CW[0]] * (n + 1))
        crpix = np.array([[g.uniform(0, 50), g.uniform(0, 50)]] * len(CW)) if one else np.array([[g.uniform(0, 50), g.uniform(0, 50)] for _ in range(n)])
        crval = np.array([[g.uniform(-1, 1) / 3600, g.uniform(-1, 1) / 3600]] * len(CW)) if one else np.array([[g.uniform(-1, 1) / 3600, g.uniform(-1, 1) / 3600] for _ in range(n)])
        ref = np.array([ra0, dec0])
        off = np.array([[g.uniform(-1, 1) / 3600, g.uniform(-1, 1) / 3600] for _ in range(n)])
        got = uwcs.sky_to_pix(off[:, 0] + ra0, off[:, 1] + dec0, exp=dict(CW=CW, crpix=crpix, crval=crval), ref_coords=ref)
        want = [crpix[i if not one else 0] + CW[i if not one else 0] @ (off[i] - crval[i if not one else 0]) for i in range(n)]
        return [eq("sky to pixel is not the exposure's astrometry", got, want, 200)]
    fn.append(exp)

    def psfs():
        out = []
        f = g.uniform(.5, 6)
        p = get_psf(fwhm=f)
        s2 = (f / 2.355) ** 2
        out.append(eq("a single gaussian PSF has another width", [p.n_gauss, *np.ravel(p.covariances), *np.ravel(p.means), *np.ravel(p.amplitudes)], [1, s2, 0, 0, s2, 0, 0, 1]))
        out.append(eq("a PSF depends on those made before", get_psf(fwhm=2.355).covariances, [1, 0, 0, 1]))
        fn = os.path.join(work, "p%d.h5" % g.randrange(10 ** 9))
        nreal, m = g.randint(1, 3), g.randint(1, 4)
        cols = ["amp", "xcen", "ycen", "Cxx", "Cyy", "Cxy"] if g.random() < .5 else ["amp", "xcr", "ycr", "Cxx", "Cyy", "Cxy"]
        d = np.zeros((nreal, m), dtype=np.dtype([(c, "<f8") for c in cols]))
        for c in cols:
            d[c] = np.array([[g.uniform(.5, 3) for _ in range(m)] for _ in range(nreal)])
        with h5py.File(fn, "w") as h:
            h["parameters"] = d
        k = g.randrange(nreal)
        p = get_psf(fn, psf_realization=k)
        want = [[d[c][k][i] for c in cols] for i in range(m)]
        out.append(eq("the PSF is not the stored mixture", p.as_tuplelist(), want, 4))
        # fitted mixtures of oversampled images: rows (amp, y, x, sigma_y, sigma_x, rho)
        ov, c0 = g.choice([1, 2, 4, 8]), g.randint(0, 100)
        par = np.array([[g.uniform(.1, 1), c0 + g.uniform(-5, 5), c0 + g.uniform(-5, 5), g.uniform(2, 9), g.uniform(2, 9), g.uniform(-.6, .6)] for _ in range(m)])
        p = make_psf(dict(fitted_params=par.reshape(-1)), oversample=ov, center=c0)
        want = [(r[0], (r[2] - c0) / ov, (r[1] - c0) / ov, (r[4] / ov) ** 2, (r[3] / ov) ** 2, r[5] * r[3] * r[4] / ov ** 2) for r in par]
        out.append(eq("the PSF is not the fitted mixture", p.as_tuplelist(), want, 4))
        return out
    fn.append(psfs)
    g.shuffle(fn)
    for f in fn:
        event(evs, f, op="eq")
    return evs


MODES = dict(static=static, slow=slow, direct=direct, moments=moments, small=small)


def run_case(case):
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    rng = random.Random(case["rseed"])
    work = tempfile.mkdtemp(prefix="c19-")
    try:
        if "pick" in case:
            evs = static(rng, work, case["pick"])
        else:
            evs = MODES[case["mode"]](rng, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return dict(cfg=dict(mode=case.get("mode", "pick")), ev=evs)


def run(c):
    rng = c.rng
    picks = c.model("MCImage", dict(Depth=c.q(1, 2)), invariants=["Arith", "Conserved", "Turned", "Shifted", "SameSource"], workers=8, timeout=900)
    c.extra["model_behaviours"] = len(picks)
    cases = [dict(pick=p, rseed=rng.randint(0, 2 ** 31)) for p in picks]
    tr = c.execute(run_case, cases)
    c.validate("ImageTrace", tr, cases, label="choices of the model", chunk=30)
    for mode, n in dict(static=c.q(120, 1500), slow=c.q(150, 1500), direct=c.q(80, 800), moments=c.q(80, 800), small=c.q(200, 2000)).items():
        cases = [dict(mode=mode, rseed=rng.randint(0, 2 ** 31)) for _ in range(n)]
        tr = c.execute(run_case, cases)
        c.extra[mode + "_events"] = sum(len(t.get("ev", ())) for t in tr)
        c.validate("ImageTrace", tr, cases, label=mode, chunk=20)
    c.assumptions += ["mixture amplitudes are smooth in (sersic, rhalf) (the reference of the check is the polynomial that was tabulated)",
                      "static patches: all sources share the reference pixel of an exposure (documented: no distortions)",
                      "positions stay near the reference, so that single precision resolves a small fraction of a pixel"]
