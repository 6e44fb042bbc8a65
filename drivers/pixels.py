"""C07 / C15: exposures and pixels taken and packed by the three kinds of pixel patch."""
import math, os, random, shutil, tempfile

import numpy as np
from astropy.io import fits
from astropy.wcs import WCS

from vlib.core import attempt
from forcepho.patches.pixel_patch import FITSPatch, StorePatch, DirectPatch
from forcepho.patches.storage import PixelStore, MetaStore, ImageSet
from forcepho.region import CircularRegion, RectangularRegion

UNIT = 0.15 / 1000 / 3600      # degrees per sky unit
BAD = 1999999999
NAMES = ["BA", "BB", "BC", "BD"]


def header(nx, ny, ra, dec, cx, cy, scale, rot, flip, band, extra=()):
    """TAN header: pixel (cx, cy) (zero indexed) at (ra, dec)."""
    h = fits.Header()
    h["NAXIS"] = 2
    h["NAXIS1"], h["NAXIS2"] = nx, ny
    h["CTYPE1"], h["CTYPE2"] = "RA---TAN", "DEC--TAN"
    h["CUNIT1"], h["CUNIT2"] = "deg", "deg"
    h["CRPIX1"], h["CRPIX2"] = cx + 1, cy + 1
    h["CRVAL1"], h["CRVAL2"] = ra, dec
    c, s = math.cos(rot), math.sin(rot)
    sx = -scale if not flip else scale
    h["CD1_1"], h["CD1_2"] = sx * c, -scale * s
    h["CD2_1"], h["CD2_2"] = sx * s, scale * c
    h["FILTER"] = band
    for k, v in extra:
        h[k] = v
    return h


def to_uv(hdr, x, y, ra0, dec0):
    ra, dec = WCS(hdr).pixel_to_world_values(np.asarray(x, float), np.asarray(y, float))
    u = ((ra - ra0 + 180) % 360 - 180) * math.cos(math.radians(dec0)) / UNIT
    v = (dec - dec0) / UNIT
    clip = lambda a: np.clip(np.round(a), -200000, 200000).astype(int)
    return clip(u), clip(v)


def tok(a, s=1):
    a = np.asarray(a, dtype=float) * s
    a = np.where(np.isfinite(a) & (np.abs(a) < 1e9) & (np.abs(a - np.round(a)) < .1), np.round(a), BAD)
    return [int(v) for v in a.reshape(-1)]


def wtok(a, s=64000.):
    """Weights: units of 1/64000, rounded (capped weights are not tokens)."""
    a = np.asarray(a, dtype=float) * s
    a = np.where(np.isfinite(a) & (np.abs(a) < 1.9e9), np.round(a), BAD)
    return [int(v) for v in a.reshape(-1)]


class Exposure:
    def __init__(self, rng, k, nx, ny, band, hdr, ra0, dec0, ptok, blk, sup=0, badfrac=.15, off=None, wconst=None):
        self.k, self.nx, self.ny, self.band, self.hdr = k, nx, ny, band, hdr
        self.flux = np.zeros((nx, ny), dtype=np.float32)
        self.err = np.zeros((nx, ny), dtype=np.float32)
        px = []
        self.off = 0 if off is None else off
        if off is not None:
            hdr["BKGOFF"] = float(off)
        for x in range(nx):
            for y in range(ny):
                f = ptok[0]
                ptok[0] += 1
                w = 1 + (f * 7919) % 1999
                if rng.random() < .05:
                    f = -f
                self.flux[x, y] = f
                self.err[x, y] = 1000. / w
                u = rng.random()
                if u < badfrac:
                    m = rng.randrange(6)
                    if m == 0:
                        self.flux[x, y] = np.nan
                    elif m == 1:
                        self.err[x, y] = np.nan
                    elif m == 2:
                        self.err[x, y] = np.inf
                    elif m == 3:
                        self.err[x, y] = 0
                    elif m == 4:
                        self.err[x, y] = -1000. / w
                    else:
                        self.flux[x, y] = np.inf
                    w = 0
                    # a constant uncertainty overrides the error image
                    if wconst is not None and m in (1, 2, 3, 4):
                        w = wconst
                elif wconst is not None:
                    w = wconst
                unit = (x // sup) * (ny // sup) + (y // sup) if sup else x * ny + y
                px.append([x, y, f, w, unit + 1])
        self.px = px
        if sup:
            cor = [[(I, J), (I + sup - 1, J), (I + sup - 1, J + sup - 1), (I, J + sup - 1)]
                   for I in range(0, nx, sup) for J in range(0, ny, sup)]
        else:
            cor = [[(x, y), (x + 1, y), (x + 1, y + 1), (x, y + 1)] for x in range(nx) for y in range(ny)]
        xy = np.array(cor, dtype=float).reshape(-1, 2)
        u, v = to_uv(hdr, xy[:, 0], xy[:, 1], ra0, dec0)
        uv = np.stack([u, v], 1).reshape(-1, 4, 2)
        self.units = uv.tolist()
        self.blk = blk

    def cfg(self):
        return dict(band=self.band, off=self.off, blk=self.blk, px=self.px, units=self.units)


def write_fits(path, e):
    fits.HDUList([fits.PrimaryHDU(), fits.ImageHDU(e.flux.T, header=e.hdr, name="SCI"),
                  fits.ImageHDU(e.err.T, name="ERR")]).writeto(path, overwrite=True)


def make_region(r, ra0, dec0):
    cd = math.cos(math.radians(dec0))
    if r["kind"] == "all":
        return None
    if r["kind"] == "circle":
        return CircularRegion(ra0 + r["u"] * UNIT / cd, dec0 + r["v"] * UNIT, r["r"] * UNIT)
    return RectangularRegion(ra0 + r["u0"] * UNIT / cd, ra0 + r["u1"] * UNIT / cd, dec0 + r["v0"] * UNIT, dec0 + r["v1"] * UNIT)


def observe(patch, op, idx, region):
    ev = dict(op)
    ev["op"] = "build"
    bands = [NAMES[b - 1] for b in op["bands"]]
    patch.max_snr = op["cap"] or None
    _, exc = attempt(patch.build_patch, region, allbands=bands, tweak_background="BKGOFF" if op["tweak"] else False)
    if exc:
        ev["exc"] = exc
        return ev
    ev["used"] = [idx.get(str(p), 0) for p in patch.epaths]
    ev["eband"] = [NAMES.index(b) + 1 for b in patch.bands]
    ev["bandlist"] = [NAMES.index(b) + 1 for b in patch.bandlist]
    for a in ("exposure_start", "exposure_N", "band_start", "band_N", "band_N_pix"):
        ev[a] = [int(v) for v in getattr(patch, a)]
    ev["d"], ev["w"], ev["x"], ev["y"] = tok(patch.data), wtok(patch.ierr), tok(patch.xpix), tok(patch.ypix)
    ev["nband"], ev["nexp"], ev["npix"] = int(patch.n_bands), int(patch.n_exp), int(patch.npix)
    for nm, f in (("split", patch.split_pix), ("bsplit", patch.split_band)):
        ev[nm] = [[t(a) for a in f(attr)] for attr, t in (("data", tok), ("ierr", wtok), ("xpix", tok), ("ypix", tok))]
    return ev


def build(kind, rng, exps, work, blk, debug=0, unc=None):
    """A patch over the exposures, and the map from its exposure names to their numbers."""
    idx = {}
    if kind == "fits":
        files = []
        for e in exps:
            p = os.path.join(work, f"im{e.k}.fits")
            write_fits(p, e)
            files.append(p)
            idx[p] = e.k
        patch = FITSPatch(fitsfiles=files, debug=debug)
        if blk != 64:
            patch.warp_size = blk
        patch.unc = unc
    elif kind == "direct":
        pd, hd = {}, {}
        for e in exps:
            nm = f"im{e.k}"
            px = e.px
            fl = np.array([p[2] for p in px], dtype=float)
            ie = np.array([p[3] / 1000. for p in px])
            pd[nm] = dict(flux=fl, ierr=ie, xpix=np.array([p[0] for p in px]), ypix=np.array([p[1] for p in px]))
            hd[nm] = e.hdr
            idx[nm] = e.k
        patch = DirectPatch(pixel_dict=pd, header_dict=hd, debug=debug)
    else:
        h5, js = os.path.join(work, "pix.h5"), os.path.join(work, "meta.json")
        sup = exps[0].sup
        ps = PixelStore(h5, nside_full=np.array([exps[0].nx, exps[0].ny]), super_pixel_size=sup)
        ms = MetaStore()
        for e in exps:
            with np.errstate(all="ignore"):
                ie = 1. / e.err
            im = ImageSet(im=e.flux.copy(), ierr=ie, mask=None, bkg=None, hdr=e.hdr, band=NAMES[e.band - 1], expID=f"im{e.k}", names=None)
            ps.add_exposure(im)
            ms.add_exposure(im)
            idx[f"{NAMES[e.band-1]}/im{e.k}"] = e.k
        ms.write_to_file(js)
        patch = StorePatch(pixelstore=h5, metastore=js, debug=debug)
    return patch, idx


# ---------------------------------------------------------------------------
def run_packed(case):
    """A configuration of the packing model: n x 1 images, all pixels of an image in or out."""
    rng = random.Random(case["rseed"])
    work = tempfile.mkdtemp(prefix="vpix_")
    try:
        ra0, dec0, sc = 53.1, -27.8, 0.03 / 3600
        ptok = [10]
        exps = []
        for k, (b, n) in enumerate(case["exps"], 1):
            out = n == 0
            cx = 400. if out else n / 2.
            h = header(max(n, 2), 1, ra0, dec0, cx, .5, sc, 0., False, NAMES[b - 1])
            exps.append(Exposure(rng, k, max(n, 2) if out else n, 1, b, h, ra0, dec0, ptok, case["blk"], badfrac=.1))
            exps[-1].hdr["NAXIS1"] = exps[-1].nx
        patch, idx = build(case["kind"], rng, exps, work, case["blk"])
        R = dict(kind="circle", u=0, v=0, r=4000) if case["kind"] != "direct" else dict(kind="all")
        evs = []
        for _ in range(case.get("rep", 1)):
            op = dict(region=R, bands=case["bands"], cap=0, tweak=False)
            evs.append(observe(patch, op, idx, make_region(R, ra0, dec0)))
        return dict(cfg=dict(exps=[e.cfg() for e in exps]), ev=evs)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run_random(case):
    rng = random.Random(case["rseed"])
    work = tempfile.mkdtemp(prefix="vpix_")
    try:
        kind = case["kind"]
        ra0, dec0 = rng.uniform(5, 350), rng.uniform(-60, 60)
        nexp = rng.randint(1, case["maxexp"])
        blk = 0 if kind != "fits" else rng.choice([1, 2, 4, 8, 16, 64])
        sup = rng.choice([2, 4]) if kind == "store" else 0
        ptok = [rng.randint(1, 50)]
        exps = []
        # same base scale so that the regions make sense everywhere
        ps = 200
        smx = case["maxside"]
        nx0, ny0 = (sup * rng.randint(1, 4), sup * rng.randint(1, 4)) if sup else (0, 0)
        wconst = rng.randint(1, 1999) if kind == "fits" and rng.random() < .15 else None
        # a field in which exposures overlap the origin to a varying degree
        for k in range(1, nexp + 1):
            nx, ny = (nx0, ny0) if sup else (rng.randint(1, smx), rng.randint(1, smx))
            scale = rng.choice([ps, ps, 2 * ps]) * UNIT
            mode = rng.random()
            if mode < .6:
                cx, cy = rng.uniform(0, nx), rng.uniform(0, ny)
            elif mode < .9:
                cx, cy = rng.uniform(-1.5 * nx - 3, 2.5 * nx + 3), rng.uniform(-1.5 * ny - 3, 2.5 * ny + 3)
            else:
                cx, cy = rng.choice([-50, 60]), rng.choice([-50, 60])
            h = header(nx, ny, ra0, dec0, cx, cy, scale, rng.choice([0, math.pi / 2, rng.uniform(0, 2 * math.pi)]),
                       rng.random() < .2, "", [])
            b = rng.randint(1, 4)
            h["FILTER"] = NAMES[b - 1]
            e = Exposure(rng, k, nx, ny, b, h, ra0, dec0, ptok, blk, sup=sup, badfrac=rng.choice([0, .1, .5]),
                         off=rng.randint(-300, 300) if rng.random() < .7 else None, wconst=wconst)
            e.sup = sup
            exps.append(e)
        patch, idx = build(kind, rng, exps, work, blk, debug=rng.choice([0, 0, 1]),
                           unc=None if wconst is None else 1000. / wconst)
        evs = []
        for _ in range(rng.randint(1, case["builds"])):
            sz = rng.choice([ps * .3, ps, 3 * ps, 8 * ps, 30 * ps])
            u, v = (round(rng.uniform(-4 * ps, 4 * ps)) for _ in range(2))
            if kind == "direct":
                R = dict(kind="all")
            elif kind == "fits" and rng.random() < .08:
                R = dict(kind="all")
            elif rng.random() < .55:
                R = dict(kind="circle", u=u, v=v, r=max(20, round(sz * rng.uniform(.5, 1))))
            else:
                a, b = round(sz * rng.uniform(.1, 1)), round(rng.choice([sz, sz, 20 * ps, ps * .2]) * rng.uniform(.1, 1))
                if rng.random() < .5:
                    a, b = b, a
                R = dict(kind="rect", u0=u - a, u1=u + a, v0=v - b, v1=v + b)
            bands = list(range(1, 5))
            rng.shuffle(bands)
            bands = bands[:rng.choice([1, 2, 3, 4, 4, 4])]
            op = dict(region=R, bands=bands, cap=rng.choice([0, 0, 0, 1, 20, 300]), tweak=rng.random() < .4)
            evs.append(observe(patch, op, idx, make_region(R, ra0, dec0)))
        if kind == "store":
            patch.pixelstore.close()
        return dict(cfg=dict(exps=[e.cfg() for e in exps]), ev=evs)
    finally:
        shutil.rmtree(work, ignore_errors=True)
