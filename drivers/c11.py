"""C11: pixel data of patches written to disk, read back and reassembled into images."""
import glob, math, os, random, shutil, tempfile
from argparse import Namespace

import numpy as np
from astropy.io import fits
from astropy.wcs import WCS

from vlib.core import attempt
from drivers.pixels import header, write_fits, NAMES, UNIT
from drivers.images import write_splines, write_psfs, cat_dtype, SHAPES
from forcepho.patches import CPUPatchMixin
from forcepho.patches.pixel_patch import FITSPatch, StorePatch, DirectPatch
from forcepho.patches.storage import PixelStore, MetaStore, ImageSet
from forcepho.region import CircularRegion
from forcepho.fitting import Result
from forcepho.utils.io import write_residuals, write_to_disk
from forcepho.postprocess import Residuals, write_images

BAD = 1999999999


class FP(FITSPatch, CPUPatchMixin):
    pass


class SP(StorePatch, CPUPatchMixin):
    pass


class DP(DirectPatch, CPUPatchMixin):
    pass


def tok(a, s=1., hi=1.9e9):
    a = np.asarray(a, dtype=float) * s
    a = np.where(np.isfinite(a) & (np.abs(a) < hi), np.round(a), BAD)
    return [int(v) for v in a.reshape(-1)]


def bits(a):
    return [int(v) for v in np.ascontiguousarray(np.asarray(a, dtype=np.float32)).reshape(-1).view(np.int32)]


def cells(im, s, x0=0, y0=0):
    """Non-blank pixels of an image indexed [x, y]."""
    x, y = np.where(np.isfinite(im))
    return [[int(a) + x0, int(b) + y0, t] for a, b, t in zip(x, y, tok(im[x, y], s))]


class Exp:
    pass


class FakeAxes:
    def __init__(self):
        self.calls = []

    def imshow(self, A, origin="upper", extent=None, **kw):
        A = np.asarray(A)
        if origin != "lower":
            A = A[::-1]
        ny, nx = A.shape
        if extent is None:
            extent = (-.5, nx - .5, -.5, ny - .5)
        self.calls.append((A.T, extent))


class Scenario:
    def __init__(self, rng, case, work):
        self.rng, self.work, self.kind = rng, work, case["kind"]
        self.spl, self.psf = os.path.join(work, "spl.h5"), os.path.join(work, "psf.h5")
        nb = rng.randint(1, 3)
        self.bands = NAMES[:nb]
        write_psfs(self.psf, rng, self.bands, write_splines(self.spl, rng))
        self.ra0, self.dec0 = rng.uniform(5, 350), rng.uniform(-55, 55)
        self.scale = 200 * UNIT
        self.sres = 1. if not case["real"] else 256.
        sup = 2 if self.kind == "store" else 0
        nx0, ny0 = sup * rng.randint(1, 4), sup * rng.randint(1, 4)
        t = rng.randint(1, 50)
        self.exps, self.owner = [], {}
        for k in range(1, rng.randint(1, case["maxexp"]) + 1):
            e = Exp()
            e.k, e.b = k, rng.randrange(nb)
            e.nx, e.ny = (nx0, ny0) if sup else (rng.randint(2, case["side"]), rng.randint(1, case["side"]))
            e.hdr = header(e.nx, e.ny, self.ra0, self.dec0, rng.uniform(0, e.nx), rng.uniform(0, e.ny), self.scale * rng.choice([1, 1, 1.5]),
                           rng.choice([0, rng.uniform(0, 6.28)]), rng.random() < .3, self.bands[e.b], [("IMNUM", k)])
            if self.kind == "store" and rng.random() < .3:
                e.hdr["BSCALE"], e.hdr["BZERO"] = 2., 100.
            e.flux = np.zeros((e.nx, e.ny), dtype=np.float32)
            e.w = np.zeros((e.nx, e.ny), dtype=int)
            for x in range(e.nx):
                for y in range(e.ny):
                    e.flux[x, y] = t
                    self.owner[t] = k
                    e.w[x, y] = 0 if rng.random() < .1 else rng.randint(1, 4000)
                    t += 1
            with np.errstate(all="ignore"):
                e.err = np.where(e.w > 0, 1024. / np.maximum(e.w, 1), 0).astype(np.float32)
            # names with directories, some of them with the same last part
            base = rng.choice(["a", "b", "im", "a.fits"]) if self.kind != "fits" else rng.choice(["a.fits", "b.fits", "im_x.fits"])
            e.base = base if rng.random() < .5 else f"im{k}" + (".fits" if self.kind == "fits" else "")
            e.dir = rng.choice(["", "d1/", "d1/d2/"]) if self.kind != "direct" else rng.choice(["", "d1/"])
            e.sup = sup
            self.exps.append(e)
        self.setup()
        self.sources()

    def setup(self):
        used = set()
        for e in self.exps:
            if self.kind == "store":
                name = f"{self.bands[e.b]}/{e.dir}{e.base}"
                # an exposure may not be the directory of another one here
            elif self.kind == "fits":
                name = os.path.join(self.work, "im", e.dir + e.base)
            else:
                name = e.dir + e.base
            if name in used or any(u.startswith(name + "/") or name.startswith(u + "/") for u in used):
                e.base = f"u{e.k}" + (".fits" if self.kind == "fits" else "")
                name = os.path.join(os.path.dirname(name), e.base)
            used.add(name)
            e.name = name
        self.byname = {e.name: e for e in self.exps}
        if self.kind == "fits":
            for e in self.exps:
                os.makedirs(os.path.dirname(e.name), exist_ok=True)
                write_fits(e.name, e)
        elif self.kind == "store":
            self.h5, self.js = os.path.join(self.work, "pix.h5"), os.path.join(self.work, "meta.json")
            ps = PixelStore(self.h5, nside_full=np.array([self.exps[0].nx, self.exps[0].ny]), super_pixel_size=self.exps[0].sup)
            ms = MetaStore()
            for e in self.exps:
                im = ImageSet(im=e.flux.copy(), ierr=e.w / 1024., mask=None, bkg=None, hdr=e.hdr, band=self.bands[e.b],
                              expID=e.name.split("/", 1)[1], names=None)
                ps.add_exposure(im)
                ms.add_exposure(im)
            ms.write_to_file(self.js)

    def sources(self):
        rng = self.rng
        n = rng.randint(1, 3)
        cat = np.zeros(n, dtype=cat_dtype(self.bands))
        for i in range(n):
            u, v = rng.uniform(-.1, .1), rng.uniform(-.1, .1)
            cat[i]["ra"], cat[i]["dec"] = self.ra0 + u / 3600 / math.cos(math.radians(self.dec0)), self.dec0 + v / 3600
            cat[i]["q"], cat[i]["pa"], cat[i]["sersic"], cat[i]["rhalf"] = .8, rng.uniform(-1, 1), 2., .1
            cat[i]["id"], cat[i]["source_index"] = i + 100, i
            for b in self.bands:
                cat[i][b] = rng.uniform(1, 50)
        self.cat = cat

    def patch(self, region, pick=None):
        kw = dict(psfstore=self.psf, splinedata=self.spl)
        if self.kind == "fits":
            p = FP(fitsfiles=[e.name for e in self.exps], **kw)
            p.warp_size = self.blk
        elif self.kind == "store":
            p = SP(pixelstore=self.h5, metastore=self.js, **kw)
        else:
            pd, hd = {}, {}
            for e, sel in pick:
                xy = np.array(sel)
                pd[e.name] = dict(flux=e.flux[xy[:, 0], xy[:, 1]].astype(float), ierr=e.w[xy[:, 0], xy[:, 1]] / 1024.,
                                  xpix=xy[:, 0].astype(float), ypix=xy[:, 1].astype(float))
                hd[e.name] = e.hdr
            p = DP(pixel_dict=pd, header_dict=hd, **kw)
        order = list(self.bands)
        self.rng.shuffle(order)
        with np.errstate(all="ignore"):
            p.build_patch(region, allbands=order)
        return p

    def one_patch(self):
        rng = self.rng
        for _ in range(12):
            pick = region = None
            if self.kind == "direct":
                pick = []
                for e in rng.sample(self.exps, rng.randint(1, len(self.exps))):
                    allp = [(x, y) for x in range(e.nx) for y in range(e.ny)]
                    pick.append((e, rng.sample(allp, rng.randint(1, len(allp)))))
            else:
                cd = math.cos(math.radians(self.dec0))
                r = rng.choice([1.2, 2.5, 5]) * self.scale
                region = CircularRegion(self.ra0 + rng.uniform(-2, 2) * self.scale / cd, self.dec0 + rng.uniform(-2, 2) * self.scale, r)
            st = rng.getstate()
            try:
                p = self.patch(region, pick)
            except (ValueError, IndexError):      # nothing in the region
                continue
            if not len(p.epaths):
                continue
            good = all((np.asarray(x) >= 0).any() for x in p.split_pix("xpix"))
            if good:
                def again():
                    keep = rng.getstate()
                    rng.setstate(st)
                    q = self.patch(region, pick)
                    rng.setstate(keep)
                    return q
                return p, again
        return None, None


def pixels(p, res, sres):
    out = []
    for a, r in zip(zip(*[p.split_pix(n) for n in ("xpix", "ypix", "data", "ierr")]), res):
        out.append([list(t) for t in zip(tok(a[0]), tok(a[1]), tok(a[2], sres), tok(a[3], 1024.), tok(r, sres))])
    return out


def run_case(case):
    rng = random.Random(case["rseed"])
    work = tempfile.mkdtemp(prefix="vres_")
    try:
        s = Scenario(rng, case, work)
        s.blk = rng.choice([1, 4, 8])
        root = os.path.join(work, "run")
        os.makedirs(os.path.join(root, "patches"))
        sc = s.sres
        cfgp, files, evs, obj = [], [], [], []
        t = 20000
        for n in range(case["npatch"]):
            p, again = s.one_patch()
            if p is None:
                continue
            cat = s.cat[rng.sample(range(len(s.cat)), rng.randint(1, len(s.cat)))]
            outroot = os.path.join(root, "patches", f"patch{len(files)}")
            ev = dict(op="stored", p=len(files) + 1)
            if case["real"]:
                model, q = p.prepare_model(active=cat)
                q = np.array(q, dtype=float)
                chain = np.array([q * rng.uniform(.98, 1.02) for _ in range(rng.randint(1, 3))] + [q])
                chain[:, -6:-4] = q[-6:-4]
                chain[-1] = q * 1.01
                m2, _ = again().prepare_model(active=cat)
                res = [np.array(r) for r in m2.residuals(chain[-1].copy())]
                want = pixels(p, res, sc)
                out = Result()
                out.chain = chain
                kw = dict(residual=res) if rng.random() < .3 else {}
                _, exc = attempt(write_to_disk, out, outroot, model, Namespace(write_residuals=True, a=1), **kw)
            else:
                model, q = p.prepare_model(active=cat)
                res = []
                for x in p.split_pix("xpix"):
                    res.append(np.arange(t, t + len(x)).astype(np.float32))
                    t += len(x)
                want = pixels(p, res, sc)
                _, exc = attempt(write_residuals, p, outroot + "_residuals.h5", residuals=res)
            ref = bits(np.asarray(p.patch_reference_coordinates, float) * 1000)
            ent = [dict(e=s.byname[str(e)].k, band=str(b), px=x, bits=[bits(getattr(p, a)[j]) for a in ("D", "CW", "crpix", "crval")])
                   for j, (e, b, x) in enumerate(zip(p.epaths, p.bands, want))]
            cfgp.append(ent)
            files.append(outroot + "_residuals.h5")
            if exc:
                evs.append(dict(ev, exc=exc))
                obj.append(None)
                continue

            def read():
                r = Residuals(files[-1])
                ev["exps"] = []
                for j, e in enumerate(r.exposures):
                    g = r.handle[e]
                    x = [list(z) for z in zip(tok(g["xpix"][:]), tok(g["ypix"][:]), tok(g["data"][:], sc), tok(g["ierr"][:], 1024.), tok(g["residual"][:], sc))]
                    ev["exps"].append(dict(e=s.byname[e].k, band=r.ebands[j], px=x, bits=[bits(g[a][:]) for a in ("D", "CW", "crpix", "crval")]))
                ev["ref"], ev["wantref"] = bits(np.asarray(r.reference_coordinates, float) * 1000), ref
                return r
            r, exc = attempt(read)
            obj.append(r)
            evs.append(dict(op="stored", p=ev["p"], exc=exc) if exc else ev)
            if exc:
                continue
            looks(s, evs, r, len(files), p, cat, sc)
        if files:
            fills(s, case, evs, obj, files, sc)
            if s.kind != "direct" or rng.random() < case.get("pbig", 0):
                evs.append(images(s, root, sc))
        for r in obj:
            if r is not None:
                r.handle.close()
        cfg = dict(exps=[dict(nx=e.nx, ny=e.ny) for e in s.exps], patches=cfgp)
        return dict(cfg=cfg, ev=evs)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def looks(s, evs, r, p, patch, cat, sc):
    """Cut-outs, displays and sky positions of one patch."""
    rng = s.rng
    for j, e in enumerate(r.exposures):
        kind = rng.choice(["data", "residual", "ierr"])
        ev = dict(op="cut", p=p, j=j + 1, kind=kind)
        byname = rng.random() < .5

        def cut():
            im, lo, hi = r.make_exp(exp=e, value=kind) if byname else r.make_exp(j, value=kind)
            x0, y0 = [int(round(v + .5)) for v in lo]
            ev.update(lo=tok(lo, 2), hi=tok(hi, 2), shape=list(im.shape), cells=cells(im, 1024. if kind == "ierr" else sc, x0, y0))
        _, exc = attempt(cut)
        evs.append(dict(op="cut", exc=exc) if exc else ev)
        if rng.random() < .4:
            ax = [FakeAxes() for _ in range(3)]
            ev2 = dict(op="show", p=p, j=j + 1)

            def show():
                a = np.array(ax, dtype=object)
                r.show(exp=e, axes=a) if byname else r.show(j, axes=a)
                ev2["panels"] = []
                for x in ax:
                    im, ext = x.calls[0]
                    x0, y0 = int(round(ext[0] + .5)), int(round(ext[2] + .5))
                    ev2["panels"].append(dict(lo=tok([ext[0], ext[2]], 2), hi=tok([ext[1], ext[3]], 2), shape=list(im.shape), cells=cells(im, sc, x0, y0)))
            _, exc = attempt(show)
            evs.append(dict(op="show", exc=exc) if exc else ev2)
        # sky positions: those of the sources, or others nearby
        if rng.random() < .5:
            ra, dec = cat["ra"].copy(), cat["dec"].copy()
        else:
            m = rng.randint(1, 4)
            ra = s.ra0 + np.array([rng.uniform(-1, 1) for _ in range(m)]) * s.scale * 4
            dec = s.dec0 + np.array([rng.uniform(-1, 1) for _ in range(m)]) * s.scale * 4
        x, y = WCS(s.byname[e].hdr).world_to_pixel_values(ra, dec)
        ev3 = dict(op="pix", want=[tok(v, 1000) for v in zip(x, y)])
        g, exc = attempt(lambda: r.sky_to_pix(ra, dec, exp=e) if byname else r.sky_to_pix(ra, dec, j))
        evs.append(dict(op="pix", exc=exc) if exc else dict(ev3, got=[tok(v, 1000) for v in np.asarray(g)]))


def fills(s, case, evs, obj, files, sc):
    rng = s.rng
    meta = MetaStore(s.js) if s.kind == "store" and rng.random() < .8 else None
    dicts = {}
    ops = case.get("ops") or [dict(dict=rng.choice(["A", "B", ""]), p=rng.randint(1, len(files)), kind=rng.choice(["data", "residual", "ierr"]))
                              for _ in range(rng.randint(2, 6))]
    shape = (40, 50)
    for o in ops:
        if o["p"] > len(files) or obj[o["p"] - 1] is None:
            continue
        k, kind = o["dict"], o["kind"]
        # one unit per dictionary
        kk = "" if k == "" else k + ("w" if kind == "ierr" else "")
        ev = dict(op="fill", dict=kk, p=o["p"], kind=kind)

        def fill():
            kw = dict(fill_type=kind, imshape=shape)
            if meta is not None:
                kw["metastore"] = meta
            known = meta is not None or s.kind == "fits"
            if kk:
                ims, hds = dicts.setdefault(kk, ({}, {}))
                kw["images"] = ims
                kw["headers"] = hds
            im, hd = obj[o["p"] - 1].fill_images(**kw)
            ev["returned"] = not kk or im is ims
            ev["images"] = []
            for n, a in im.items():
                e = s.byname[n]
                ev["images"].append(dict(e=e.k, shape=list(a.shape), cells=cells(a, 1024. if kind == "ierr" else sc),
                                         head=int(hd[n].get("IMNUM", 99)) if n in hd else 0))
            ev["headers"] = known
            ev["want"] = [[e.nx, e.ny] if known else list(shape) for e in s.exps]
        _, exc = attempt(fill)
        if exc:
            evs.append(dict(op="fill", dict="", exc=exc))
            break
        evs.append(ev)


def images(s, root, sc):
    rng = s.rng
    model, chi = rng.random() < .6, rng.random() < .5
    if sc != 1 and chi:
        chi = False
    ev = dict(op="images", model=model, chi=chi)
    meta = s.js if s.kind == "store" else None

    def go():
        write_images(root, subdir="out", metafile=meta, show_model=model, show_chi=chi)
        known = s.kind != "direct"
        recs = {}
        for f in sorted(glob.glob(os.path.join(root, "out", "*"))):
            stem = os.path.basename(f)[:-5]
            pre, typ = stem.rsplit("_", 1)
            with fits.open(f) as h:
                im, hdr = h[0].data, h[0].header
                k = 1024. if typ == "chi" else sc
                x = im.T
                recs[(pre, typ)] = dict(type=typ, imtype=str(hdr.get("IMTYPE", "")).lower(), shape=list(x.shape), cells=cells(x, k),
                                        head=int(hdr.get("IMNUM", 0)))
        ev["files"] = []
        for (pre, typ), rec in recs.items():
            e = 0
            d = recs.get((pre, "data"))
            own = {s.owner[int(round(abs(z[2]) / sc))] for z in (d["cells"] if d else []) if int(round(abs(z[2]) / sc)) in s.owner}
            if own:
                e = min(own)
            else:                   # only masked pixels
                e = rec["head"] or min([x.k for x in s.exps if x.base.replace(".fits", "") in pre] or [0])
            named = e > 0 and s.exps[e - 1].base.replace(".fits", "") in pre
            ev["files"].append(dict(rec, e=e, named=named))
        ev["headers"] = known
        ev["want"] = [[e.nx, e.ny] if known else [2048, 2048] for e in s.exps]
    _, exc = attempt(go)
    return dict(op="images", exc=exc) if exc else ev


def run(c):
    rng = c.rng
    hist = c.model("MCResiduals", dict(Depth=c.q(3, 4)), invariants=["Same", "LastFill", "NoPadding"], view="View", timeout=900)
    c.extra["model_behaviours"] = len(hist)
    cap = c.q(600, 4000)
    if len(hist) > cap:
        hist = rng.sample(hist, cap)
    kinds = ["fits", "store", "direct"]
    cases = [dict(kind=kinds[i % 3], maxexp=2, side=4, npatch=3, real=False, ops=h, rseed=rng.randint(0, 2 ** 31)) for i, h in enumerate(hist)]
    tr = c.execute(run_case, cases)
    c.validate("ResidualsTrace", tr, cases, label="orders of filling of the model", chunk=300)
    cases = [dict(kind=kinds[i % 3], maxexp=rng.choice([1, 3, 5]), side=rng.choice([3, 8, 12]), npatch=rng.randint(1, 4), real=rng.random() < .35,
                  pbig=c.q(.02, .05), rseed=rng.randint(0, 2 ** 31)) for i in range(c.q(300, 4000))]
    tr = c.execute(run_case, cases)
    c.validate("ResidualsTrace", tr, cases, label="random runs", chunk=150)
    c.assumptions += ["an exposure is not named like a directory of another exposure",
                      "where patches share a pixel, write_images may show either patch's value"]
