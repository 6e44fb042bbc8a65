"""Real patches with a prepared model, observed in fixed point (C08, C09, C19)."""
import math, os, random, shutil, tempfile

import h5py
import numpy as np

from vlib.core import attempt
from drivers.pixels import header
from forcepho.patches import CPUPatchMixin
from forcepho.patches.pixel_patch import DirectPatch
from forcepho.patches.storage import PSF_DTYPE
from forcepho.fitting import optimize_fluxes

Q = 1 << 22
BAD = 1999999999
NAMES = ["BA", "BB", "BC", "BD", "BE", "BF"]
SHAPES = ["ra", "dec", "q", "pa", "sersic", "rhalf"]
STEP = dict(ra=.006 / 3600, dec=.006 / 3600, q=.01, pa=.04, sersic=.05, rhalf=.004)


class Patcher(DirectPatch, CPUPatchMixin):
    pass


def fx(a, s=1., hi=1.9e9):
    """Fixed point of a / s (arrays: list)."""
    v = np.asarray(a, dtype=float) / s * Q
    v = np.where(np.isfinite(v) & (np.abs(v) < hi), np.round(v), BAD)
    if v.ndim == 0:
        return int(v)
    return v.astype(int).tolist()


def pow2(x):
    return 2. ** math.ceil(math.log2(x)) if x > 0 else 1.


def write_splines(path, rng, nr=None):
    """A small mixture approximation: smooth amplitudes in (n, rh), summing to one."""
    nr = nr or rng.randint(2, 5)
    radii = np.concatenate([[0. if rng.random() < .5 else .01], np.cumsum([rng.uniform(.03, .12) for _ in range(nr - 1)])])
    ns, rs = np.linspace(1, 5, 9), np.linspace(.03, .4, 12)
    n, r = np.meshgrid(ns, rs, indexing="ij")
    ph = [rng.uniform(0, 6.28) for _ in range(nr)]
    A = np.stack([1.5 + np.sin(p + .4 * n + (3 + k) * r) + .3 * np.cos(p * 2 + n * r) for k, p in enumerate(ph)], -1)
    A = A / A.sum(-1)[..., None]
    with h5py.File(path, "w") as f:
        f["nsersic"], f["rh"], f["amplitudes"], f["radii"] = n.reshape(-1), r.reshape(-1), A.reshape(-1, nr), radii
    return nr


def write_psfs(path, rng, bands, nradii):
    with h5py.File(path, "w") as f:
        for b in bands:
            ng = [rng.randint(1, 3) for _ in range(nradii)]
            rows = []
            for k, m in enumerate(ng):
                a = np.array([rng.uniform(.2, 1) for _ in range(m)])
                a /= a.sum()
                for j in range(m):
                    sx, sy, c = rng.uniform(.8, 2.2), rng.uniform(.8, 2.2), rng.uniform(-.5, .5)
                    rows.append((a[j], rng.uniform(-.3, .3), rng.uniform(-.3, .3), sx * sx, sy * sy, c * sx * sy, k))
            rng.shuffle(rows)
            d = np.array(rows, dtype=PSF_DTYPE)
            g = f.create_group(b)
            g.create_dataset("parameters", data=d[None, :])
            g.attrs["n_psf_per_source"] = len(d)


def cat_dtype(bands):
    return np.dtype([("id", "<i4"), ("source_index", "<i4")] + [(b, "<f8") for b in bands] + [(c, "<f8") for c in SHAPES])


class World:
    """Exposures, atoms and their solo observation."""

    def __init__(self, rng, work, nb, nexp, natoms, maxpix=240, scale=0, wscale=0, other=0):
        self.rng, self.work = rng, work
        self.bands = NAMES[:nb]
        self.S, self.W = 2. ** scale, 2. ** wscale
        self.spl, self.psf = os.path.join(work, "spl.h5"), os.path.join(work, "psf.h5")
        nr = write_splines(self.spl, rng)
        write_psfs(self.psf, rng, self.bands, nr)
        # a second mixture approximation, for the last `other` atoms
        self.spl2 = os.path.join(work, "spl2.h5")
        if other:
            write_splines(self.spl2, rng, nr)
        self.nat = natoms
        self.ra0, self.dec0 = rng.uniform(5, 350), rng.uniform(-60, 60)
        self.exps = []
        left = maxpix
        for k in range(nexp):
            n = max(4, left // (nexp - k))
            nx = rng.randint(2, max(2, int(math.sqrt(n)) + 2))
            ny = max(1, min(n // nx, 14))
            left -= nx * ny
            sc = rng.choice([.03, .06, .045]) / 3600
            h = header(nx, ny, self.ra0, self.dec0, rng.uniform(0, nx), rng.uniform(0, ny), sc,
                       rng.choice([0, rng.uniform(0, 6.28)]), rng.random() < .3, "")
            b = rng.randrange(nb) if k >= nb else k
            h["FILTER"] = self.bands[b]
            x, y = np.meshgrid(np.arange(nx), np.arange(ny), indexing="ij")
            keep = np.ones(nx * ny, bool)
            if rng.random() < .3:
                keep = np.array([rng.random() < .8 for _ in range(nx * ny)])
                keep[0] = True
            self.exps.append(dict(b=b, h=h, x=x.reshape(-1)[keep].astype(float), y=y.reshape(-1)[keep].astype(float), sc=sc * 3600))
        self.atoms = []
        for a in range(natoms + other):
            u, v = rng.uniform(-.12, .12), rng.uniform(-.12, .12)
            row = dict(ra=self.ra0 + u / 3600 / math.cos(math.radians(self.dec0)), dec=self.dec0 + v / 3600,
                       q=rng.uniform(.5, .95), pa=rng.uniform(-1.5, 1.5), sersic=rng.uniform(1.3, 4.7), rhalf=rng.uniform(.06, .35))
            self.atoms.append(dict(row=row, spl=self.spl if a < natoms else self.spl2))
        self.observe_atoms()
        self.make_data()

    def patcher(self, idx, zero=False, spl=None):
        pd, hd = {}, {}
        for k in idx:
            e = self.exps[k]
            n = len(e["x"])
            pd[f"im{k}"] = dict(flux=np.zeros(n) if zero else e["d"], ierr=np.ones(n) if zero else e["w"], xpix=e["x"], ypix=e["y"])
            hd[f"im{k}"] = e["h"]
        return Patcher(pixel_dict=pd, header_dict=hd, psfstore=self.psf, splinedata=spl or self.spl)

    def rows(self, srcs, dt=None):
        """Catalogue of (atom, true fluxes)."""
        cat = np.zeros(len(srcs), dtype=dt or cat_dtype(self.bands))
        for k, (a, f) in enumerate(srcs):
            cat[k]["id"], cat[k]["source_index"] = 100 + k, k
            for c in SHAPES:
                cat[k][c] = self.atoms[a]["row"][c]
            for b, v in zip(self.bands, f):
                cat[k][b] = v
        return cat

    def observe_atoms(self):
        for a, at in enumerate(self.atoms):
            at["im"], at["sl"] = [], []
            for k, e in enumerate(self.exps):
                p = self.patcher([k], zero=True, spl=at["spl"])
                p.build_patch(None, allbands=[self.bands[e["b"]]])
                f = np.ones(len(self.bands))
                model, q = p.prepare_model(active=self.rows([(a, f)]))
                q = np.array(q, dtype=float)
                im = lambda v: -np.concatenate(model.residuals(v)).astype(float)
                at["im"].append(im(q))
                sl = []
                for t, c in enumerate(SHAPES):
                    h = STEP[c]
                    v = []
                    for m in (-2, -1, 1, 2):
                        z = q.copy()
                        z[1 + t] += m * h
                        v.append(im(z))
                    sl.append((8 * (v[2] - v[1]) - (v[3] - v[0])) / (12 * h))
                at["sl"].append(sl)
            at["s"] = pow2(max(max(np.abs(i).max() for i in at["im"]), 2. ** -8))
            at["ss"] = [pow2(max(max(np.abs(s[t]).max() for s in at["sl"]), 1e-3)) for t in range(6)]

    def flux(self, a, big=.12):
        """A flux whose image stays below `big` image units, exactly representable."""
        rng = self.rng
        u = rng.random()
        m = 0 if u < .08 else rng.uniform(-.3, 1) if u < .3 else rng.uniform(.05, 1)
        return round(m * big * 2 ** 16) / 2. ** 16 / self.atoms[a]["s"] * self.S

    def src(self, a=None, big=.12, other=False):
        if a is None:
            a = self.rng.randrange(self.nat, len(self.atoms)) if other else self.rng.randrange(self.nat)
        return a, [self.flux(a, big) for _ in self.bands]

    def kw(self, srcs):
        """Scene options of these sources, all with the same mixture approximation."""
        a = {self.atoms[a]["spl"] for a, _ in srcs or []}
        assert len(a) < 2
        return dict(splinedata=self.spl2) if a == {self.spl2} else {}

    def make_data(self):
        rng = self.rng
        for k, e in enumerate(self.exps):
            n = len(e["x"])
            d = np.array([rng.uniform(-.08, .08) for _ in range(n)])
            for a in rng.sample(range(len(self.atoms)), min(2, len(self.atoms))):
                d += .12 / self.atoms[a]["s"] * rng.random() * self.atoms[a]["im"][k]
            e["d"] = np.round(d * 2 ** 20) / 2 ** 20
            w = np.round(np.array([rng.uniform(.2, 1) for _ in range(n)]) * 2 ** 10) / 2 ** 10
            for i in range(n):
                if rng.random() < .1:
                    w[i] = 0
            e["skip"] = []
            for i in range(n):
                if w[i] == 0 and rng.random() < .5:
                    e["d"][i] = rng.choice([-1, 1]) * 1000.
                    e["skip"].append(i + 1)
            e["d"], e["w"] = e["d"] * self.S, w * self.W

    def cfg(self):
        exps = []
        for e in self.exps:
            d = np.array(e["d"])
            for i in e["skip"]:
                d[i - 1] = 0
            exps.append(dict(band=e["b"] + 1, d=fx(d, self.S), w2=fx(e["w"] ** 2, self.W ** 2), skip=e["skip"]))
        atoms = [dict(im=[fx(i, a["s"]) for i in a["im"]], sl=[[fx(s[t], a["ss"][t]) for t in range(6)] for s in a["sl"]]) for a in self.atoms]
        return dict(exps=exps, atoms=atoms)

    def fsrc(self, src):
        a, f = src
        return dict(a=a + 1, f=[fx(v * self.atoms[a]["s"], self.S) for v in f])


class Session:
    def __init__(self, w, patch, idx):
        self.w, self.p, self.idx = w, patch, idx
        self.evs = []
        self.model = None

    def build(self, bands):
        w, p = self.w, self.p
        ev = dict(op="build", bands=[b + 1 for b in bands], order=[k + 1 for k in self.idx])
        _, exc = attempt(p.build_patch, None, allbands=[w.bands[b] for b in bands])
        if exc:
            ev["exc"] = exc
        else:
            ev["used"] = [int(e[2:]) + 1 for e in p.epaths]
            ev["bandlist"] = [w.bands.index(b) + 1 for b in p.bandlist]
            self.used = [k - 1 for k in ev["used"]]
            self.bl = [b - 1 for b in ev["bandlist"]]
            self.keep = [np.array(getattr(p, a)) for a in ("ierr", "xpix", "ypix")]
        self.evs.append(ev)

    def kept(self):
        return all(np.array_equal(a, getattr(self.p, n)) for a, n in zip(self.keep, ("ierr", "xpix", "ypix")))

    def prepare(self, active, fixed, big, maxactive, shapes=None):
        w, p = self.w, self.p
        ev = dict(op="prepare", active=[w.fsrc(s) for s in active], fixed=[w.fsrc(s) for s in fixed or []],
                  big=[w.fsrc(s) for s in big or []], max=maxactive)
        cats = [w.rows(active)] + [None if c is None else w.rows(c) for c in (fixed, big)]
        r, exc = attempt(p.prepare_model, active=cats[0], fixed=cats[1], big=cats[2], maxactive=maxactive, big_scene_kwargs=w.kw(big))
        if exc:
            ev["exc"] = exc
        else:
            self.model, q = r
            self.q0 = np.array(q, dtype=float)
            ev["data"] = [fx(a, w.S) for a in p.split_pix("data")]
            ev["keptw"] = bool(self.kept())
            ev["nsrc"] = int(p.n_sources)
            nb = len(self.bl)
            qq = self.q0.reshape(len(active), -1)[:, :nb] if self.q0.size == len(active) * (nb + 6) else np.full((len(active), nb), np.nan)
            ev["q"] = [[fx(qq[i, j] * w.atoms[active[i][0]]["s"], w.S) for j in range(nb)] for i in range(len(active))]
        self.active = active
        self.evs.append(ev)

    def vector(self, srcs):
        """Scene parameters of these sources, positions relative to the patch reference."""
        w, p = self.w, self.p
        ref = p.patch_reference_coordinates
        q = []
        for a, f in srcs:
            row = w.atoms[a]["row"]
            q += [f[b] for b in self.bl] + [row["ra"] - ref[0], row["dec"] - ref[1]] + [row[c] for c in SHAPES[2:]]
        return np.array(q)

    def evaluate(self, srcs):
        w, m = self.w, self.model
        rng = w.rng
        ev = dict(op="eval", src=[w.fsrc(s) for s in srcs])
        q = self.vector(srcs)
        rfirst = rng.random() < .5
        r = exc = None
        if rfirst:
            r, exc = attempt(m.residuals, q)
        out, exc2 = attempt(m.lnprob_and_grad, q)
        if not rfirst:
            r, exc = attempt(m.residuals, q)
        chi, exc3 = attempt(lambda: m.proposer.evaluate_proposal(m.scene.get_proposal(), patch=self.p))
        if exc or exc2 or exc3:
            ev["exc"] = exc or exc2 or exc3
            self.evs.append(ev)
            return
        S, W = w.S, w.W
        ev["r"] = [fx(a, S) for a in r]
        ev["lnl"] = fx(out[0], S * S * W * W)
        ev["chi2"] = fx(np.asarray(chi[0], dtype=float), S * S * W * W)
        nb = len(self.bl)
        g = np.asarray(out[1], dtype=float)
        if g.shape != q.shape:
            ev["gf"], ev["gs"] = [], []
        else:
            g = g.reshape(len(srcs), nb + 6)
            ev["gf"], ev["gs"] = [], []
            for i, (a, f) in enumerate(srcs):
                at = w.atoms[a]
                ev["gf"].append(fx(g[i, :nb], S * W * W * at["s"]))
                ev["gs"].append([fx(g[i, nb + t], S * S * W * W * at["ss"][t] / at["s"]) for t in range(6)])
        self.evs.append(ev)

    def xtol(self, srcs):
        """Unit images come from differences of single precision data."""
        w = self.w
        t = 8.
        for a, f in srcs:
            for v in f:
                fh = abs(v) * w.atoms[a]["s"] / w.S if v else w.atoms[a]["s"] / w.S
                t = max(t, 2. / max(fh, 1e-9))
        return int(min(t + 8, 1e6))

    def design(self, srcs):
        w, p = self.w, self.p
        ev = dict(op="design", src=[w.fsrc(s) for s in srcs], xtol=self.xtol(srcs))
        r, exc = attempt(p.design_matrix, active=w.rows(srcs), **w.kw(srcs))
        if exc:
            ev["exc"] = exc
        else:
            X, y = r
            cut = lambda v, j: np.split(np.asarray(v), np.cumsum([len(w.exps[k]["x"]) for k in self.used if w.exps[k]["b"] == self.bl[j]])[:-1])
            ev["x"] = [[[fx(v, w.atoms[srcs[i][0]]["s"]) for v in cut(x[i], j)] for i in range(len(x))] for j, x in enumerate(X)]
            ev["y"] = [[fx(v, w.S) for v in cut(v0, j)] for j, v0 in enumerate(y)]
        self.evs.append(ev)

    def fit(self, srcs):
        w, p = self.w, self.p
        ev = dict(op="fit", src=[w.fsrc(s) for s in srcs], xtol=self.xtol(srcs))
        r, exc = attempt(optimize_fluxes, p, w.rows(srcs))
        if exc or not isinstance(r[0], list):
            ev["exc"] = exc or "no solution"
        else:
            fl, pr = r
            s = [w.atoms[a]["s"] for a, _ in srcs]
            ev["flux"] = [[fx(v * s[i], w.S) for i, v in enumerate(f)] for f in fl]
            ev["prec"] = [[[fx(m[i, l], w.W ** 2 * s[i] * s[l]) for l in range(len(s))] for i in range(len(s))] for m in pr]
        self.evs.append(ev)

    def render(self, srcs):
        w = self.w
        ev = dict(op="render", src=[w.fsrc(s) for s in srcs])
        r, exc = attempt(self.p.render, w.rows(srcs), **w.kw(srcs))
        if exc:
            ev["exc"] = exc
        else:
            ev["im"] = [fx(v, w.S) for v in r]
        self.evs.append(ev)


def run_case(case):
    rng = random.Random(case["rseed"])
    work = tempfile.mkdtemp(prefix="vlik_")
    try:
        w = World(rng, work, case["nb"], case["nexp"], case["natoms"], maxpix=case["maxpix"],
                  scale=case.get("scale", 0), wscale=case.get("wscale", 0), other=case.get("other", 0))
        idx = list(range(len(w.exps)))
        rng.shuffle(idx)
        s = Session(w, w.patcher(idx), idx)
        for r in range(case["rounds"]):
            bands = list(range(len(w.bands)))
            rng.shuffle(bands)
            if rng.random() < .3:
                bands = bands[:rng.randint(1, len(bands))]
            s.build(bands)
            if "exc" in s.evs[-1]:
                break
            na = rng.randint(1, case["maxact"])
            act = [w.src(big=.4 / max(na, 3)) for _ in range(na)]
            fixed = big = None
            if rng.random() < case["pfixed"]:
                fixed = [w.src(big=.03) for _ in range(rng.randint(1, case["maxfixed"]))]
            if rng.random() < case["pfixed"] / 2:
                o = case.get("other", 0) and rng.random() < .7
                big = [w.src(big=.06, other=o) for _ in range(rng.randint(1, 3))]
            if case.get("crowd"):     # more sources than the kernel takes at once
                fixed = [w.src(big=.01) for _ in range(rng.choice([16, 29, 30, 31, 32, 45, 46, 61, 62]))]
                if big:
                    big = [w.src(big=.01) for _ in range(rng.choice([3, 30, 31, 33]))]
                s.prepare(act, fixed, big, rng.choice([15, 15, 15, 30]))
            else:
                s.prepare(act, fixed, big, rng.choice([1, 2, 3, 15]))
            if "exc" in s.evs[-1]:
                break
            for _ in range(rng.randint(1, case["evals"])):
                u = rng.random()
                if u < case["plin"]:
                    at = range(w.nat)
                    v = rng.random()
                    if len(w.atoms) > w.nat and rng.random() < .3 and not .4 <= v < .8:
                        at = range(w.nat, len(w.atoms))
                    ss = [w.src(a) for a in rng.sample(at, rng.randint(1, min(3, len(at))))]
                    if v < .4:
                        s.design(ss)
                    elif v < .8 and w.distinct(ss, s):
                        s.fit(ss)
                    else:
                        s.render(ss)
                else:
                    # the prepared sources, or other shapes in their place, in any order
                    ss = list(act) if rng.random() < .4 else [w.src(big=.4 / max(na, 3)) for _ in range(na)]
                    s.evaluate(ss)
                if "exc" in s.evs[-1]:
                    break
        return dict(cfg=w.cfg(), ev=s.evs)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def distinct(self, ss, sess):
    """The linear problem is well conditioned in every band."""
    for b in sess.bl:
        ks = [k for k in sess.used if self.exps[k]["b"] == b]
        X = np.array([np.concatenate([self.atoms[a]["im"][k] / self.atoms[a]["s"] * self.exps[k]["w"] / self.W for k in ks]) for a, _ in ss])
        A = X @ X.T
        if np.linalg.eigvalsh(A)[0] < .02:
            return False
    return True


World.distinct = distinct


def run_fine(case):
    """Likelihood of exposures of very different depth, together and apart."""
    rng = random.Random(case["rseed"])
    work = tempfile.mkdtemp(prefix="vfin_")
    try:
        w = World(rng, work, case["nb"], case["nexp"], 2, maxpix=60)
        deep = rng.randrange(len(w.exps))
        for e in w.exps:
            e["w"] = np.maximum(e["w"], .25)
            e["d"] = np.clip(e["d"], -1, 1)
        w.exps[deep]["w"] *= 2. ** case["bits"]
        srcs = [(a, [.3 / w.atoms[a]["s"]] * len(w.bands)) for a in range(2)]

        def lnp(idx):
            p = w.patcher(idx)
            p.build_patch(None, allbands=w.bands)
            m, q = p.prepare_model(active=w.rows(srcs))
            return float(m.lnprob(q))
        rest = [k for k in range(len(w.exps)) if k != deep]
        v, exc = attempt(lambda: (lnp(range(len(w.exps))), lnp([deep]), lnp(rest)))
        ev = dict(op="fine")
        if exc:
            ev["exc"] = exc
        else:
            ev["together"] = fx(v[0] - v[1], 64.)
            ev["apart"] = fx(v[2], 64.)
        return dict(cfg=w.cfg(), ev=[ev])
    finally:
        shutil.rmtree(work, ignore_errors=True)
