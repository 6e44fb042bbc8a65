"""C16: catalogues made from all the patches of a run."""
import json, math, os, random, re, shutil, tempfile
from argparse import Namespace

import numpy as np
from astropy.io import fits
from scipy.special import gamma, gammaincinv

from vlib.core import attempt
from drivers.images import NAMES
from drivers.summary import run_summary
from forcepho import postprocess as pp
from forcepho.fitting import Result
from forcepho.region import CircularRegion
from forcepho.sources import Galaxy
from forcepho.superscene import SuperScene, sourcecat_dtype, flux_bounds, rectify_catalog
from forcepho.utils.io import write_to_disk

BAD = 1999999999
SHAPES = list(Galaxy.SHAPE_COLS)
UNIT = dict(q=1e4, pa=1e4, sersic=1e4, rhalf=1e3, ra=1e6, dec=1e6)
RANGE = dict(q=(4100, 9800), pa=(-15000, 15000), sersic=(10200, 49000), rhalf=(60, 280), ra=(-5000, 5000), dec=(-5000, 5000))


class RunDir:
    def __init__(self, rng, case, work):
        self.rng, self.root = rng, os.path.join(work, "run")
        os.makedirs(os.path.join(self.root, "patches"))
        self.n = case["n"]
        self.nb = case.get("nb") or rng.randint(1, 3)
        if case.get("hist"):
            self.nb = 2
        self.bands = rng.sample(NAMES, self.nb)
        self.names = self.bands + SHAPES
        self.ra0, self.dec0 = rng.randint(5, 350), rng.randint(-60, 60)
        self.ni, self.ns = case["ni"], 0
        self.ns = rng.randint(1, self.ni)
        self.ids = rng.sample(range(1, 5000), self.n)
        cat = np.zeros(self.n, dtype=sourcecat_dtype(bands=self.bands))
        cat["id"] = self.ids
        cat["source_index"] = np.arange(self.n)
        self.init = [[self.value(c) for c in self.names] for _ in range(self.n)]
        for s in range(self.n):
            for j, c in enumerate(self.names):
                cat[s][c] = self.real(c, self.init[s][j])
        self.sname = rng.choice(["superscene.fits", "superscene.fits", "sc_v2.fits"])
        self.scene = SuperScene(sourcecat=cat, bands=list(self.bands), statefile=os.path.join(self.root, self.sname), target_niter=5)
        self.rawcat = os.path.join(work, "raw.fits")
        self.config = dict(bandlist=list(self.bands), raw_catalog=self.rawcat, sampling_draws=self.ns)
        if self.sname != "superscene.fits" or rng.random() < .5:
            self.config["scene_catalog"] = self.sname
        with open(os.path.join(self.root, "config.json"), "w") as f:
            json.dump(self.config, f)
        self.patches = []
        self.stats = case["stats"]

    def value(self, c):
        rng = self.rng
        if c in RANGE:
            return rng.randint(*RANGE[c])
        return rng.choice([1, 1, 1, 1, 1, -1]) * rng.randint(1, 400000) if rng.random() < .95 else 0

    def real(self, c, t):
        return t / UNIT.get(c, 1.) + dict(ra=self.ra0, dec=self.dec0).get(c, 0.)

    def tok(self, c, v):
        z = (np.asarray(v, dtype=float) - dict(ra=self.ra0, dec=self.dec0).get(c, 0.)) * UNIT.get(c, 1.)
        z = np.where(np.isfinite(z) & (np.abs(z) < 1.9e9), np.round(z), BAD)
        return int(z) if z.ndim == 0 else [int(x) for x in z]

    def add(self, pid, src, bands):
        """A patch over these sources is fit, written and checked in."""
        rng, nm = self.rng, list(bands) + SHAPES
        ntab = len(src) * len(nm)
        table = [[[self.value(c) for _ in range(self.ni)] for c in nm] for _ in src]
        ref = np.array([self.ra0 + rng.randint(-3, 3) / 8., self.dec0 + rng.randint(-3, 3) / 8.])
        chain = np.zeros((self.ni, ntab))
        for i in range(len(src)):
            for j, c in enumerate(nm):
                chain[:, i * len(nm) + j] = [self.real(c, t) - dict(ra=ref[0], dec=ref[1]).get(c, 0.) for t in table[i][j]]
        lnp = [rng.randint(-9999, 9999) for _ in range(self.ni)]
        wall = rng.randint(1, 9999)
        inds = np.array(src) - 1
        active = self.scene.sourcecat[inds].copy()
        self.scene.sourcecat["is_active"][inds] = True
        self.scene.n_active += len(inds)
        region = CircularRegion(self.ra0 + rng.randint(0, 99) / 64., self.dec0 + rng.randint(0, 99) / 64., rng.randint(1, 99) / 1024.)
        out = Result()
        out.chain, out.wall_time = chain, wall / 8.
        patch = Namespace(bandlist=list(bands), patch_reference_coordinates=ref, npix=9, epaths=["e1"])
        model = Namespace(patch=patch, scene=Namespace(sources=[Namespace(SHAPE_COLS=SHAPES)]), ncall=3)
        kw = {}
        if self.stats:
            kw = dict(step=Namespace(potential=Namespace(_cov=np.eye(ntab)), stats_dtypes=[dict(tune=bool, model_logp=float)]),
                      stats=[dict(tune=k < self.ni - self.ns, model_logp=float(v)) for k, v in enumerate(lnp)])
        sig = []
        fixed = rng.choice([None, active[:0].copy()])
        final, covs = out.fill(region, active, fixed, model, patchID=pid, **kw)
        if rng.random() < .7:
            P = []
            for b in bands:
                sd = [rng.randint(8, 8000) for _ in src]
                L = np.array(sd) / 8.
                m = len(src)
                A = np.eye(m) + np.array([[rng.uniform(-.6, .6) for _ in range(m)] for _ in range(m)])
                C = A @ A.T + .1 * np.eye(m)
                d = np.sqrt(np.diag(C))
                C = C / d[:, None] / d[None, :] * L[:, None] * L[None, :]
                P.append(np.linalg.inv(C))
                sig.append([v * 125 for v in sd])
            out.precisions = np.array(P)
        write_to_disk(out, os.path.join(self.root, "patches", f"patch{pid}"), model, Namespace(**self.config))
        self.scene.checkin_region(final, fixed, niter=self.ns, taskID=pid, flush=rng.random() < .5)
        self.patches.append(dict(id=str(pid), src=list(src), names=nm, table=table, lnp=lnp, wall=wall, sig=sig, region=region))

    def cfg(self):
        ps = [{k: v for k, v in p.items() if k != "region"} for p in self.patches]
        return dict(n=self.n, ids=self.ids, bands=self.bands, shapes=SHAPES, init=self.init, ns=self.ns, patches=ps)

    def rows(self, cat, names=None):
        return [[self.tok(c, r[c]) for c in names or self.names] for r in cat]

    # ------------------------------------------------------------------
    def meta(self):
        config, plog, slog, final = pp.run_metadata(self.root)
        sl = {int(k): v for k, v in slog.items()}
        return dict(plog=[str(p) for p in plog], slog=[[str(p) for p in sl.get(s, [])] for s in range(self.n)],
                    final=self.rows(final), ids=[int(v) for v in final["id"]])

    def srows(self, cat):
        names = [c for c in cat.dtype.names if c not in ("id", "source_index", "patch_id", "wall", "lnp")]
        return [dict(id=int(r["id"]), idx=int(r["source_index"]), pid=str(int(r["patch_id"])), wall=int(round(float(r["wall"]) * 8)),
                     lnp=[int(round(float(v))) for v in np.atleast_1d(r["lnp"])], names=names,
                     vals=[self.tok(c, np.atleast_1d(r[c])) for c in names]) for r in cat]

    def samples(self):
        rng = self.rng
        alls = rng.random() < .5
        lst = None
        if not alls:
            lst = rng.sample(range(len(self.patches)), rng.randint(1, len(self.patches)))
        cn = os.path.join(self.root, "cat.fits") if rng.random() < .5 else None
        pl = None if alls else [int(self.patches[k]["id"]) for k in lst]
        if pl and rng.random() < .3:
            pl = [str(p) for p in pl]
        cat = pp.postsample_catalog(self.root, catname=cn, patches=pl)
        disk = self.srows(fits.getdata(cn)) if cn else []
        return dict(all=alls, list=[] if alls else [k + 1 for k in lst], rows=self.srows(cat), disk=disk)

    def final(self):
        return fits.getdata(os.path.join(self.root, self.sname))

    def default(self):
        f = self.final()
        d = []
        for s in range(self.n):
            r = []
            for b in self.bands:
                lo, hi = flux_bounds(np.array([float(f[b][s])]), 1)
                r.append(int(round(max(abs(float(lo[0]) - float(f[b][s])), abs(float(hi[0]) - float(f[b][s]))) * 1000)))
            d.append(r)
        return d

    def urows(self, unc):
        return [[int(round(float(u[b]) * 1000)) if math.isfinite(u[b]) and abs(u[b]) < 1.9e6 else BAD for b in self.bands] for u in unc]

    def unc(self):
        snr = self.rng.choice([None, 1000, 100, 7, 1000000])
        u = pp.flux_unc_linear(self.root, **({} if snr is None else dict(snr_max=snr)))
        return dict(snr=snr or 1000, rows=self.urows(u), ids=[int(v) for v in u["id"]], idx=[int(v) for v in u["source_index"]], **{"def": self.default()})

    def multi(self):
        S, P, C = pp.find_multipatch(self.root)
        rep = []
        for s, p, c in zip(S, P, C):
            names = [n for n in c.dtype.names if n != "source_index"]
            ok = all(int(v) == int(s) for v in c["source_index"])
            rep.append(dict(s=int(s) + 1, pids=[str(x) for x in p], names=names,
                            chains=[[self.tok(n, r[n]) for n in names] for r in c] if ok else []))
        return dict(rep=rep)

    def stat(self):
        n = self.rng.randint(1, self.ni + 2)
        st = pp.check_multipatch(self.root, n_sample=n)
        m = min(n, self.ni)
        rep = []
        for s, d in st.items():
            names = list(d.keys())
            k = len(d[names[0]][0])
            off = lambda c: dict(ra=self.ra0, dec=self.dec0).get(c, 0.)
            sums = [[int(round((float(d[c][0][i]) - off(c)) * UNIT.get(c, 1.) * m)) if np.isfinite(d[c][0][i]) else BAD for c in names] for i in range(k)]
            rep.append(dict(s=int(s) + 1, names=names, sums=sums))
        return dict(n=n, rep=rep)

    def postop(self):
        rng = self.rng
        kw = {}
        out = self.rawcat.replace(".fits", "_postop.fits")
        if rng.random() < .5:
            out = os.path.join(self.root, "post.fits")
            kw["catname"] = out
        want = list(self.bands)
        if rng.random() < .3:
            want = rng.sample(self.bands, rng.randint(1, self.nb))
            kw["bands"] = list(want)
        pp.postop_catalog(self.root, **kw)
        ev = dict(want=want, snr=1000)
        with fits.open(out) as h:
            cat = h[1].data
            ev.update(rows=self.rows(cat), ids=[int(v) for v in cat["id"]], idx=[int(v) for v in cat["source_index"]],
                      niter=[int(v) for v in cat["n_iter"]], npatch=[int(v) for v in cat["n_patch"]],
                      filters=[b.strip() for b in h[0].header["FILTERS"].split(",")],
                      unc=self.urows(h[2].data) if len(h) > 2 else [])
            ev["def"] = self.default()
        r, exc = attempt(rectify_catalog, out)
        if exc:
            ev["recexc"] = exc
        else:
            cat, bands, _ = r
            ev["recnames"] = list(bands) + SHAPES
            ev["rec"] = self.rows(cat, ev["recnames"])
            # the catalogue starts a new run
            sc, exc = attempt(SuperScene, sourcecat=cat, bands=list(bands), statefile=os.path.join(self.root, "next.fits"), target_niter=1)
            if exc:
                ev["recexc"] = exc
            elif not sc.undone:
                ev["recexc"] = "the new run is already done"
        return ev

    def sreg(self):
        rng = self.rng
        f = self.final()
        showid = rng.random() < .5
        iso = None
        roi = [float(v) for v in f["rhalf"]]
        if rng.random() < .4:
            b, lev = rng.choice(self.bands), rng.choice([1., 1e3, 1e6])
            iso = (b, lev)
            for s in range(self.n):
                n, L, rh = float(f["sersic"][s]), float(f[b][s]), roi[s]
                if L <= 0:
                    continue
                k = gammaincinv(2 * n, .5)
                Ie = L / (2 * math.pi * n * rh ** 2 * math.exp(k) * k ** (-2 * n) * gamma(2 * n))
                z = 1 - math.log(lev / Ie) / k
                if z > 0:
                    roi[s] = rh * z ** n
        pp.write_sourcereg(self.root, slist="src.reg", showid=showid, isophote=iso)
        from regions import Regions
        R = Regions.read(os.path.join(self.root, "image", "src.reg"), format="ds9")
        ang = lambda a: int(round(a * 100)) % 36000
        got, want = [], []
        for s, r in enumerate(R):
            g = [int(round((r.center.ra.deg - self.ra0) * 1e6)), int(round((r.center.dec.deg - self.dec0) * 1e6)),
                 int(round(r.width.to_value("arcsec") * 1e4)), int(round(r.height.to_value("arcsec") * 1e4)), ang(r.angle.to_value("deg"))]
            if s < self.n:
                w = [self.tok("ra", f["ra"][s]), self.tok("dec", f["dec"][s]), int(round(roi[s] / f["q"][s] * 1e4)), int(round(roi[s] * f["q"][s] * 1e4)),
                     ang(90 - math.degrees(f["pa"][s]))]
                if abs(w[4] - g[4]) > 18000:
                    g[4] += 36000 if g[4] < w[4] else -36000
                want.append(w)
            got.append(g)
        texts = [str(r.meta.get("text", "")) for r in R]
        big = max(w[2] for w in want)
        return dict(got=got, want=want, tol=[300, 300, 10 + big // 1000, 10 + big // 1000, 10], texts=texts, wanttexts=[str(i) if showid else "" for i in self.ids])

    def preg(self):
        fn = [os.path.join(self.root, "patches", f"patch{p['id']}_samples.h5") for p in self.patches]
        by = dict(zip(fn, self.patches))
        order = sorted(fn)
        self.rng.shuffle(fn)
        reg = os.path.join(self.root, "p.reg")
        pp.write_patchreg(list(fn), plist=reg)
        got, texts = [], []
        for line in open(reg):
            m = re.match(r'.*circle\(([-\d.e]+)d,([-\d.e]+)d,([-\d.e]+)d\).*text="(\d+)"', line)
            if m:
                got.append([int(round((float(m.group(1)) - self.ra0) * 1e6)), int(round((float(m.group(2)) - self.dec0) * 1e6)), int(round(float(m.group(3)) * 1e6))])
                texts.append(m.group(4))
        want = [[int(round((by[k]["region"].ra - self.ra0) * 1e6)), int(round((by[k]["region"].dec - self.dec0) * 1e6)), int(round(by[k]["region"].radius * 1e6))] for k in order]
        return dict(got=got, want=want, tol=[2, 2, 2], texts=texts, wanttexts=[str(i) for i in range(len(order))])


def run_case(case):
    rng = random.Random(case["rseed"])
    work = tempfile.mkdtemp(prefix="vrun_")
    try:
        R = RunDir(rng, case, work)
        evs = []
        hist = case.get("hist")
        if not hist:
            npatch = rng.randint(1, case["maxpatch"])
            pids = rng.sample(range(0, 3 * npatch + 5), npatch)
            hist = [dict(id=pids[k], src=rng.sample(range(1, R.n + 1), rng.randint(1, min(R.n, case["maxsrc"]))), both=rng.random() < .7) for k in range(npatch)]
        for k, h in enumerate(hist):
            bands = list(R.bands)
            if h["both"]:
                if rng.random() < .4:
                    rng.shuffle(bands)
            elif case.get("hist"):
                bands = bands[1:]
            else:
                bands = rng.sample(bands, rng.randint(1, len(bands)))
            src = list(h["src"])
            rng.shuffle(src)
            R.add(h["id"], src, bands)
            evs.append(dict(op="checkin", p=k + 1))
        R.scene.writeout()
        ops = [("meta", R.meta), ("unc", R.unc), ("multi", R.multi), ("postop", R.postop), ("stats", R.stat)]
        if R.stats:
            ops += [("samples", R.samples)] * 2
        if rng.random() < case["preg"]:
            ops += [("reg", R.sreg), ("reg", R.preg)]
        rng.shuffle(ops)
        for name, f in ops:
            r, exc = attempt(f)
            evs.append(dict(op=name, exc=exc) if exc else dict(r, op=name))
        return dict(cfg=R.cfg(), ev=evs)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(c):
    rng = c.rng
    hist = c.model("MCRun", dict(N=3, IDs="{1, 2, 10}", Depth=3), invariants=["Last", "Logs", "Values"], timeout=900)
    c.extra["model_behaviours"] = len(hist)
    cap = c.q(400, 6000)
    hist = [h for h in hist if len(h) > 1] if cap < len(hist) else hist
    if len(hist) > cap:
        hist = rng.sample(hist, cap)
    cases = [dict(hist=h, n=3, ni=rng.randint(2, 3), stats=True, preg=.1, rseed=rng.randint(0, 2 ** 31)) for h in hist]
    tr = c.execute(run_case, cases)
    c.validate("RunTrace", tr, cases, label="runs of the model", chunk=500)
    cases = [dict(n=rng.randint(1, 12), maxpatch=rng.choice([2, 4, 12]), maxsrc=rng.choice([2, 5, 12]), ni=rng.randint(2, 6), stats=rng.random() < .8, preg=.4,
                  rseed=rng.randint(0, 2 ** 31)) for _ in range(c.q(250, 3000))]
    tr = c.execute(run_case, cases)
    c.validate("RunTrace", tr, cases, label="random runs", chunk=200)
    for k in c.q((3, 4), (3, 4, 5)):
        c.model("MCSummary", dict(Vals=c.q("{0, 12, 36}", "{0, 12, 36, 60}") if k < 5 else "{0, 12, 36}", N=k), emit=False, invariants=["Range1", "Ends", "Rises", "Order", "Median", "Groups"], workers=8)
    cases = [dict(nb=rng.randint(1, 3), rseed=rng.randint(0, 2 ** 31)) for _ in range(c.q(80, 1500))]
    tr = c.execute(run_summary, cases)
    c.validate("SummaryTrace", tr, cases, label="derived catalogues", chunk=500)
    c.assumptions += ["all patches of a run have the same number of iterations and samples", "patch numbers are not reused within a run",
                      "identifiers fit in 32 bits"]
