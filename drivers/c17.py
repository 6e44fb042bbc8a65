"""C17: catalogue ingestion and position angles."""
import math, os, random, shutil, tempfile

import numpy as np
from astropy.io import fits

from vlib.core import attempt
from forcepho.superscene import rectify_catalog, convert_pa

BAD = 1999999999


def ints(a, s=1.):
    a = np.asarray(a, dtype=float).reshape(-1) * s
    a = np.where(np.isfinite(a) & (np.abs(a) < 1.9e9), np.round(a), BAD)
    return [int(v) for v in a]


def tok(v, s):
    v = float(v) * s
    return int(round(v)) if math.isfinite(v) and abs(v) < 1.9e9 and abs(v - round(v)) < .02 else BAD


def run_pa(case):
    rng = random.Random(case["rseed"])
    ns = case["n"]
    deg = rng.random() < .5
    dt = np.float64
    a = np.array([v * .005 if deg else v * math.pi / 36000 for v in ns], dtype=dt)
    form = rng.choice(["array", "array", "strided", "column"])
    if form == "strided":
        b = np.zeros(2 * len(a))
        b[::2] = a
        x = b[::2]
    elif form == "column":
        b = np.zeros(len(a), dtype=[("z", "f8"), ("pa", "f8")])
        b["pa"] = a
        x = b["pa"]
    else:
        x = a.copy()
    r, exc = attempt(convert_pa, x, from_deg=deg, rotate=case["rot"], reverse=case["rev"])
    ev = dict(op="pa", inp=ns, rot=case["rot"], rev=case["rev"], deg=deg)
    if exc:
        return dict(cfg={}, ev=[dict(ev, exc=exc)])
    return dict(cfg={}, ev=[dict(ev, out=ints(r, 36000 / math.pi), same=bool(np.array_equal(np.asarray(x), a)))])


SH = ["ra", "dec", "q", "pa", "sersic", "rhalf"]


def run_cat(case):
    rng = random.Random(case["rseed"])
    work = tempfile.mkdtemp(prefix="vcat_")
    try:
        n = rng.randint(1, 12)
        bands = rng.sample(["F090W", "F200W", "X1", "CLEAR"], rng.randint(1, 4))
        extra = rng.sample(["foo", "bar", "F999"], rng.randint(0, 3))
        cols = [("id", rng.choice(["i4", "i8", "i2"]))] + [(c, "f8") for c in SH] + [(b, rng.choice(["f8", "f4"])) for b in bands] + [(e, "f8") for e in extra]
        if rng.random() < .4:
            cols.append(("source_index", "i4"))
        if rng.random() < .4:
            cols += [("n_iter", "i4"), ("is_active", "i4"), ("roi", "f4")]
        rng.shuffle(cols)
        cat = np.zeros(n, dtype=cols)
        inp = []
        ids = rng.sample(range(1, 5000), n)
        for k in range(n):
            r = dict(id=ids[k], ra=rng.randint(0, 360000), dec=rng.randint(-80000, 80000), q=rng.randint(0, 1200), sersic=rng.randint(0, 7000),
                     rhalf=rng.randint(0, 1500), pa=rng.randint(-4000000, 4000000) if rng.random() < .5 else rng.choice([0, 1570796, -1570796, 2000000, 1]),
                     flux=[rng.randint(-3000, 3000) for _ in bands])
            inp.append(r)
            cat["id"][k] = r["id"]
            cat["ra"][k], cat["dec"][k] = r["ra"] / 1000., r["dec"] / 1000.
            cat["q"][k], cat["sersic"][k], cat["rhalf"][k], cat["pa"][k] = r["q"] / 1000., r["sersic"] / 1000., r["rhalf"] / 1000., r["pa"] / 1e6
            for b, f in zip(bands, r["flux"]):
                cat[b][k] = f
            for e in extra:
                cat[e][k] = rng.choice([1.5, np.nan])
            if "source_index" in cat.dtype.names:
                cat["source_index"][k] = rng.randint(0, 100)
        hdr = fits.Header()
        hdr["FILTERS"] = rng.choice([",", ", ", " ,"]).join(bands)
        valid = True
        u = rng.random()
        if u < .1:
            hdr["FILTERS"] = hdr["FILTERS"] + ",MISSING"
            valid = False
        elif u < .25:
            c = rng.choice(SH + bands)
            cat[c][rng.randrange(n)] = rng.choice([np.nan, np.inf, -np.inf])
            valid = False
        elif u < .32:
            drop = rng.choice(SH)
            keep = [c for c in cat.dtype.names if c != drop]
            cat = np.array(cat[keep])
            valid = False
        kw = {}
        rr, qr, sr, pr = [51, 290], [200, 990], [1010, 4990], [-2000000, 2000000]
        if rng.random() < .5:
            rr, qr, sr, pr = [rng.randint(1, 100), rng.randint(200, 900)], [rng.randint(50, 500), rng.randint(600, 1000)], \
                [rng.randint(500, 1500), rng.randint(2000, 6000)], [rng.randint(-2000000, -1000), rng.randint(1000, 2000000)]
            kw = dict(rhalf_range=tuple(v / 1000. for v in rr), sqrtq_range=tuple(v / 1000. for v in qr), sersic_range=[v / 1000. for v in sr],
                      pa_range=np.array([v / 1e6 for v in pr]))
        rot, rev = rng.random() < .4, rng.random() < .4
        if rng.random() < .5:
            p = os.path.join(work, "c.fits")
            fits.writeto(p, cat, header=hdr)
            fits.setval(p, "FILTERS", value=hdr["FILTERS"]) if "FILTERS" not in fits.getheader(p) else None
            arg = p
            # a FITS table file read through its primary header
            with fits.open(p, mode="update") as h:
                h[0].header["FILTERS"] = hdr["FILTERS"]
            before = None
        else:
            arg = (cat, hdr)
            before = cat.copy()
        r, exc = attempt(rectify_catalog, arg, rotate=rot, reverse=rev, **kw)
        ev = dict(op="rectify", inp=inp, rr=rr, qr=qr, sr=sr, pr=pr, rot=rot, rev=rev, valid=valid, wantbands=bands)
        if exc:
            return dict(cfg={}, ev=[dict(ev, exc=exc)])
        s, b, h = r
        ev["same"] = before is None or before.tobytes() == cat.tobytes()
        ev["bands"] = [str(x) for x in b]
        ev["out"] = [dict(index=int(x["source_index"]), id=int(x["id"]), ra=tok(x["ra"], 1000), dec=tok(x["dec"], 1000), q=tok(x["q"], 1000), sersic=tok(x["sersic"], 1000),
                          rhalf=tok(x["rhalf"], 1000), pa=ints([x["pa"]], 1e6)[0], flux=[tok(x[bb], 1) if bb in s.dtype.names else BAD for bb in bands]) for x in s]
        return dict(cfg={}, ev=[ev])
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(c):
    rng = c.rng
    hist = c.model("MCAngle", dict(Step=c.q(3000, 500), Turns=c.q(7, 11)), invariants=["Right"])
    groups = {}
    for h in hist:
        groups.setdefault((h["rot"], h["rev"]), []).append(h["n"])
    cases = []
    for (rot, rev), ns in groups.items():
        rng.shuffle(ns)
        k = 0
        while k < len(ns):
            m = rng.choice([1, 2, 7, 20])
            cases.append(dict(n=ns[k:k + m], rot=rot, rev=rev, rseed=rng.randint(0, 2 ** 31)))
            k += m
    for _ in range(c.q(400, 4000)):
        cases.append(dict(n=[rng.choice([rng.randint(-40000, 40000), rng.randint(-2000000, 2000000), 18000, -18000, 0, 54000]) for _ in range(rng.randint(1, 15))],
                          rot=rng.random() < .5, rev=rng.random() < .5, rseed=rng.randint(0, 2 ** 31)))
    tr = c.execute(run_pa, cases)
    c.validate("IngestTrace", tr, cases, label="position angles")
    cases = [dict(rseed=rng.randint(0, 2 ** 31)) for _ in range(c.q(1000, 10000))]
    tr = c.execute(run_cat, cases)
    c.validate("IngestTrace", tr, cases, label="catalogues")
    c.assumptions += ["identifiers are integers that fit 32 bits"]
