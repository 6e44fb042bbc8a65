"""C15: region geometry and the exposures and pixels it selects."""
import math, os, random, shutil, tempfile

import numpy as np

from vlib.core import attempt
from forcepho.region import CircularRegion, RectangularRegion, polygons_overlap, polygon_contains
from forcepho.patches.storage import MetaStore, ImageSet
from . import pixels
from .pixels import UNIT, NAMES, header, to_uv


class Poly:
    def __init__(self, p, off=(0., 0.), s=1.):
        self.bounding_box = np.array(p, dtype=float).T * s + np.array(off)[:, None]


def ev_overlap(rng, a, b):
    if rng.random() < .5:
        a = a[::-1]
    if rng.random() < .5:
        b = b[::-1]
    k = rng.randrange(len(a))
    a = a[k:] + a[:k]
    off, s = rng.choice([((0., 0.), 1.), ((53., -27.), 2. ** -10), ((-7., 12.), 4.)])
    A, B = Poly(a, off, s), Poly(b, off, s)
    r, exc = attempt(polygons_overlap, A, B)
    ev = dict(op="overlap", a=a, b=b)
    if exc:
        return dict(ev, exc=exc)
    return dict(ev, res=bool(r), rev=bool(polygons_overlap(B, A)))


def ev_points(rng, P, pts):
    if rng.random() < .5:
        P = P[::-1]
    k = rng.randrange(len(P))
    P = P[k:] + P[:k]
    r, exc = attempt(polygon_contains, np.array(P, dtype=float), np.array(pts, dtype=float))
    ev = dict(op="points", poly=P, pts=pts)
    if exc:
        return dict(ev, exc=exc)
    return dict(ev, res=[bool(v) for v in r])


def convex(rng, m):
    """Random convex polygon with integer vertices."""
    while True:
        n = rng.randint(3, 7)
        cx, cy = rng.randint(-m, m), rng.randint(-m, m)
        r = rng.randint(2, m)
        ang = sorted(rng.uniform(0, 2 * math.pi) for _ in range(n))
        P = [[round(cx + r * math.cos(t)), round(cy + r * math.sin(t))] for t in ang]
        ok = True
        for k in range(n):
            o, a, b = P[k], P[(k + 1) % n], P[(k + 2) % n]
            if (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0]) <= 0:
                ok = False
        # simple polygon: total turning once is implied by vertices on a circle in order
        if ok:
            return P


def run_geo(case):
    rng = random.Random(case["rseed"])
    evs = []
    if "pair" in case:
        a, b = case["pair"]["a"], case["pair"]["b"]
        evs.append(ev_overlap(rng, a, b))
        sc = [[2 * x, 2 * y] for x, y in a]
        evs.append(ev_points(rng, sc, [[rng.randint(-1, 9), rng.randint(-1, 9)] for _ in range(8)]))
    else:
        for _ in range(case["n"]):
            u = rng.random()
            if u < .4:
                a, b = convex(rng, 40), convex(rng, 40)
                if rng.random() < .3:     # far and thin ones
                    b = [[x + rng.choice([-60, 60, 0]), y + rng.choice([-60, 60, 0])] for x, y in b[:1]] + b[1:] if False else \
                        [[x + 30, y - 25] for x, y in b]
                evs.append(ev_overlap(rng, a, b))
            elif u < .75:
                P = convex(rng, 60)
                evs.append(ev_points(rng, P, [[rng.randint(-90, 90), rng.randint(-90, 90)] for _ in range(rng.choice([1, 2, 12]))]))
            else:
                evs.append(ev_bbox(rng))
    return dict(cfg={}, ev=evs)


def somewhere(rng):
    """A right ascension; often close to its origin."""
    return rng.uniform(5, 350) if rng.random() < .7 else rng.uniform(-40, 40) * 200 * UNIT % 360


def ev_bbox(rng):
    ra0, dec0 = rng.uniform(5, 350), rng.uniform(-70, 70)
    cd = math.cos(math.radians(dec0))
    if rng.random() < .5:
        r = rng.randint(20, 9000)
        reg = CircularRegion(ra0, dec0, r * UNIT)
        e = (-r, r, -r, r)
    else:
        a, b = sorted(rng.sample(range(-9000, 9000), 2))
        c, d = sorted(rng.sample(range(-9000, 9000), 2))
        reg = RectangularRegion(ra0 + a * UNIT / cd, ra0 + b * UNIT / cd, dec0 + c * UNIT, dec0 + d * UNIT)
        e = (a, b, c, d)
    bb, exc = attempt(lambda: np.asarray(reg.bounding_box))
    ev = dict(op="bbox", u0=e[0], u1=e[1], v0=e[2], v1=e[3], tol=2)
    if exc:
        return dict(ev, exc=exc)
    u = np.round((bb[0] - ra0) * cd / UNIT).astype(int)
    v = np.round((bb[1] - dec0) / UNIT).astype(int)
    return dict(ev, box=[[int(a), int(b)] for a, b in zip(u, v)])


def run_lookup(case):
    """Position lookups in a metadata store, interleaved with additions and reloads."""
    rng = random.Random(case["rseed"])
    work = tempfile.mkdtemp(prefix="vreg_")
    try:
        ra0, dec0 = somewhere(rng), rng.uniform(-60, 60)
        cd = math.cos(math.radians(dec0))
        ms = MetaStore()
        exps, evs, aim = [], [], []

        def add():
            nx, ny = rng.randint(4, 40), rng.randint(4, 40)
            h = header(nx, ny, ra0, dec0, rng.uniform(-nx, 2 * nx), rng.uniform(-ny, 2 * ny), 200 * UNIT,
                       rng.choice([0, math.pi / 2, rng.uniform(0, 6.28)]), rng.random() < .3, "")
            b = rng.randint(1, 3)
            h["FILTER"] = NAMES[b - 1]
            if rng.random() < .2:
                h["NAXIS"], h["NAXIS3"] = 3, 2
                h["CTYPE3"], h["CRPIX3"], h["CRVAL3"], h["CD3_3"] = "WAVE", 1, 1., 1.
            cor = np.array([(0, 0), (nx, 0), (nx, ny), (0, ny)], dtype=float)
            h2 = h.copy()
            if "NAXIS3" in h2:
                for kk in ("NAXIS3", "CTYPE3", "CRPIX3", "CRVAL3", "CD3_3"):
                    del h2[kk]
                h2["NAXIS"] = 2
            u, v = to_uv(h2, cor[:, 0], cor[:, 1], ra0, dec0)
            if rng.random() < .3:
                out = np.array([(-1, -1), (nx + 1, -1), (nx + 1, ny + 1), (-1, ny + 1)], dtype=float)
                uu, vv = to_uv(h2, out[:, 0], out[:, 1], ra0, dec0)
                sreg = " ".join(f"{(ra0 + a * UNIT / cd) % 360:.9f} {dec0 + b * UNIT:.9f}" for a, b in zip(uu, vv))
                h["S_REGION"] = "POLYGON ICRS " + sreg
            # pixel k spans k - 1/2 .. k + 1/2; footprints are also taken as 0 .. n: inside both, outside both
            quad = lambda a, b, c, d: [[int(p), int(q)] for p, q in zip(*to_uv(h2, np.array([a, b, b, a]), np.array([c, c, d, d]), ra0, dec0))]
            rec = dict(band=b, foot=[[int(a), int(c)] for a, c in zip(u, v)], inner=quad(.02, nx - .52, .02, ny - .52), outer=quad(-.52, nx + .02, -.52, ny + .02))
            edge = lambda n: rng.choice([-.9, -.6, .1, .6, n - .6, n - .9, n + .1, n + .9, rng.uniform(-2, n + 2), rng.uniform(1, n - 1), rng.uniform(1, n - 1)])
            near = quad(edge(nx), edge(nx), edge(ny), edge(ny))
            aim.extend(near)
            old = [k for k, e in enumerate(exps) if e["band"] == b]
            if old and rng.random() < .25:
                k = rng.choice(old)
                exps[k] = rec
            else:
                k = len(exps)
                exps.append(rec)
            ms.add_exposure(ImageSet(im=None, ierr=None, mask=None, bkg=None, hdr=h, band=NAMES[b - 1], expID=f"e{k+1}", names=None))
        for _ in range(rng.randint(1, 5)):
            add()
        for _ in range(rng.randint(3, 10)):
            u = rng.random()
            if u < .15:
                add()
            elif u < .25:
                p = os.path.join(work, "m.json")
                ms.write_to_file(p)
                ms = MetaStore(p, load_all=rng.random() < .5)
            else:
                pos = [rng.randint(-9000, 9000), rng.randint(-9000, 9000)]
                if rng.random() < .5:
                    pos = rng.choice(aim)
                elif rng.random() < .6:
                    f = rng.choice(exps)["foot"]
                    w = [rng.random() for _ in range(4)]
                    s = sum(w)
                    pos = [round(sum(a * q[i] for a, q in zip(w, f)) / s) for i in (0, 1)]
                bands = rng.sample([1, 2, 3, 4], rng.randint(1, 4))
                r, exc = attempt(ms.find_exposures, ((ra0 + pos[0] * UNIT / cd) % 360, dec0 + pos[1] * UNIT), [NAMES[b - 1] for b in bands])
                ev = dict(op="lookup", exps=[dict(e) for e in exps], pos=pos, bands=bands)
                if exc:
                    evs.append(dict(ev, exc=exc))
                    break
                evs.append(dict(ev, found=[int(e[1:]) for e in r[0]], fband=[NAMES.index(b) + 1 for b in r[1]]))
        return dict(cfg={}, ev=evs)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run_header(case):
    """Region.overlaps(header) on axis-aligned images."""
    rng = random.Random(case["rseed"])
    evs = []
    for _ in range(6):
        ra0, dec0 = somewhere(rng), rng.uniform(-60, 60)
        nx, ny = rng.randint(2, 40), rng.randint(2, 40)
        h = header(nx, ny, ra0, dec0, rng.uniform(-nx, 2 * nx), rng.uniform(-ny, 2 * ny), 200 * UNIT,
                   rng.choice([0, math.pi / 2, math.pi]), False, "BA")
        cor = np.array([(0, 0), (nx, 0), (nx, ny), (0, ny)], dtype=float)
        u, v = to_uv(h, cor[:, 0], cor[:, 1], ra0, dec0)
        iu, iv = to_uv(h, np.array([.02, nx - .52]), np.array([.02, ny - .52]), ra0, dec0)
        ou, ov = to_uv(h, np.array([-.52, nx + .02]), np.array([-.52, ny + .02]), ra0, dec0)
        if rng.random() < .5:      # a small region at the edge of the image
            e = lambda n: rng.choice([-.9, -.7, .1, n / 2., n - .6, n - .7, n + .2, n + .9])
            x, y = to_uv(h, np.array([e(nx)]), np.array([e(ny)]), ra0, dec0)
            a = rng.randint(2, 30)
            R = dict(kind="circle", u=int(x[0]), v=int(y[0]), r=a) if rng.random() < .5 else \
                dict(kind="rect", u0=int(x[0]) - a, u1=int(x[0]) + a, v0=int(y[0]) - a, v1=int(y[0]) + a)
            b = (int(x[0]) - a, int(x[0]) + a, int(y[0]) - a, int(y[0]) + a)
        elif rng.random() < .5:
            r = rng.randint(50, 6000)
            R = dict(kind="circle", u=rng.randint(-4000, 4000), v=rng.randint(-4000, 4000), r=r)
            b = (R["u"] - r, R["u"] + r, R["v"] - r, R["v"] + r)
        else:
            a, c = rng.randint(50, 6000), rng.randint(50, 6000)
            x, y = rng.randint(-4000, 4000), rng.randint(-4000, 4000)
            R = dict(kind="rect", u0=x - a, u1=x + a, v0=y - c, v1=y + c)
            b = (x - a, x + a, y - c, y + c)
        reg = pixels.make_region(R, ra0, dec0)
        res, exc = attempt(reg.overlaps, h)
        ev = dict(op="header", inner=[int(min(iu)), int(max(iu)), int(min(iv)), int(max(iv))],
                  outer=[int(min(ou)), int(max(ou)), int(min(ov)), int(max(ov))], reg=[int(x) for x in b])
        evs.append(dict(ev, exc=exc) if exc else dict(ev, res=bool(res)))
    return dict(cfg={}, ev=evs)


def run_place(case):
    """One placement of the model, realised with a FITS patch or a pixel store, in four orientations."""
    rng = random.Random(case["rseed"])
    work = tempfile.mkdtemp(prefix="vplc_")
    try:
        ra0, dec0 = rng.choice([53.1, 53.1, somewhere(rng)]), -27.8
        nx, ny = case["nx"], case["ny"]
        sup = case["sup"]
        NX, NY = nx * (sup or 1), ny * (sup or 1)
        S = 200
        flip = case["orient"] == 2
        rot = math.pi / 2 if case["orient"] == 1 else 0.
        h = header(NX, NY, ra0, dec0, 0., 0., S * UNIT, rot, flip, "BA")
        e = pixels.Exposure(rng, 1, NX, NY, 1, h, ra0, dec0, [10], 0 if sup else 4, sup=sup, badfrac=0)
        e.sup = sup
        patch, idx = pixels.build("store" if sup else "fits", rng, [e], work, 4)
        # region edges in pixel units -> sky through the header
        x0, x1, y0, y1 = [v / 2. for v in case["r"]]
        if sup:     # super-pixel corners sit at 0, s-1, s, 2s-1 ...: stretch the region accordingly
            st = lambda v: math.floor(v) * sup + (sup - .5)
            x0, x1, y0, y1 = st(x0), st(x1), st(y0), st(y1)
        u, v = to_uv(h, [x0, x1], [y0, y1], ra0, dec0)
        R = dict(kind="rect", u0=int(min(u)), u1=int(max(u)), v0=int(min(v)), v1=int(max(v)))
        ev = pixels.observe(patch, dict(region=R, bands=[1], cap=0, tweak=False), idx, pixels.make_region(R, ra0, dec0))
        if sup:
            patch.pixelstore.close()
        return dict(cfg=dict(exps=[e.cfg()]), ev=[ev])
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(c):
    rng = c.rng
    pairs = c.model("MCRegion", dict(G=3, Mode='"box"'), invariants=["SatRight", "HalfRight"], workers=4)
    tri = c.model("MCRegion", dict(G=2, Mode='"tri"'), invariants=["SatRight", "HalfRight"], workers=4)
    cap = c.q(2500, 20000)
    if len(tri) > cap:
        tri = rng.sample(tri, cap)
    cases = [dict(pair=p, rseed=rng.randint(0, 2 ** 31)) for p in pairs + tri]
    cases += [dict(n=30, rseed=rng.randint(0, 2 ** 31)) for _ in range(c.q(300, 4000))]
    tr = c.execute(run_geo, cases)
    c.validate("RegionTrace", tr, cases, label="polygon tests")
    cases = [dict(rseed=rng.randint(0, 2 ** 31)) for _ in range(c.q(400, 5000))]
    tr = c.execute(run_lookup, cases)
    c.validate("RegionTrace", tr, cases, label="lookups by position")
    cases = [dict(rseed=rng.randint(0, 2 ** 31)) for _ in range(c.q(200, 2000))]
    tr = c.execute(run_header, cases)
    c.validate("RegionTrace", tr, cases, label="region and header")
    cases = []
    for nx, ny in c.q([(2, 1), (1, 2)], [(2, 1), (1, 2), (2, 2), (3, 1), (1, 3), (3, 2)]):
        for r in c.model("MCPlace", dict(NX=nx, NY=ny, Lim=2), invariants=["Sound"]):
            for sup in (0, 2):
                cases.append(dict(nx=nx, ny=ny, r=r, sup=sup, orient=rng.randrange(3), rseed=rng.randint(0, 2 ** 31)))
    tr = c.execute(run_place, cases)
    c.validate("PixelsTrace", tr, cases, label="every placement of region and image")
    cases = [dict(kind=rng.choice(["fits", "store"]), maxexp=4, maxside=12, builds=5, rseed=rng.randint(0, 2 ** 31))
             for _ in range(c.q(250, 4000))]
    tr = c.execute(pixels.run_random, cases)
    c.validate("PixelsTrace", tr, cases, label="random exposures and regions", chunk=400)
    c.assumptions += ["regions and images away from the RA origin and the poles, square pixels, footprints small on the sky",
                      "touching boundaries (polygons), corners within 0.01 pixel (pixels) accepted either way; footprints from half a pixel before the first to half a pixel after the last, or from 0 to n"]
