"""C14: prior bounds, the sampling map, barrier priors."""
import math, random, shutil, tempfile
from argparse import Namespace

import numpy as np

from vlib.core import attempt
from drivers.images import World, SHAPES, NAMES
from forcepho.model import BoundedTransform, Transform
from forcepho.priors import ExpBeta, LogPrior
from forcepho.superscene import (SuperScene, LinkedSuperScene, make_bounds, flux_bounds, adjust_bounds, check_bounds, sourcecat_dtype)

BAD = 1999999999
Q = 1 << 22


def tok(v, s=1., tol=.02):
    v = float(v) * s
    return int(round(v)) if math.isfinite(v) and abs(v) < 1.9e9 and abs(v - round(v)) < tol else BAD


def rnd(v, s=1.):
    v = float(v) * s
    return int(round(v)) if math.isfinite(v) and abs(v) < 1.9e9 else BAD


def toks(a, s=1., tol=.02):
    return [tok(v, s, tol) for v in np.asarray(a, dtype=float).reshape(-1)]


def rnds(a, s=1.):
    return [rnd(v, s) for v in np.asarray(a, dtype=float).reshape(-1)]


def root(rng):
    u = rng.random()
    return dict(s=0 if u < .15 else rng.randint(1, 12) if u < .5 else rng.randint(1, 4000), sg=rng.choice([1, 1, -1]))


def value(x):
    return x["sg"] * (x["s"] / 4.) ** 2


def run_flux(case):
    rng = random.Random(case["rseed"])
    U = rng.choice([2, 5, 10, 10, 1, 20])
    src = [root(rng) for _ in range(rng.randint(1, 7))]
    if rng.random() < .1:
        src = [dict(s=0, sg=1) for _ in src]
    f = np.array([value(x) for x in src])
    f0 = f.copy()
    ev = dict(op="flux", u=U, src=src)
    r, exc = attempt(flux_bounds, f, U / 2.)
    if exc:
        ev["exc"] = exc
    else:
        ev["lo"], ev["hi"] = toks(r[0], 16), toks(r[1], 16)
        if not np.array_equal(f, f0):
            ev["exc"] = "a modified input"
    return dict(cfg={}, ev=[ev])


ROWS = {1: [[3], [7], [20]], 2: [[3, 4], [5, 12], [-6, 8], [0, 9]], 3: [[2, 3, 6], [1, 4, 8], [-4, 4, 7], [0, 0, 5], [6, 6, 7]],
        4: [[1, 1, 1, 1], [2, 4, 5, 2], [1, 5, 3, 1], [-1, 3, 3, 9]]}


def run_prec(case):
    rng = random.Random(case["rseed"])
    n = rng.randint(1, 4)
    L = np.zeros((n, n))
    for i in range(n):
        r = list(rng.choice(ROWS[i + 1]))
        rng.shuffle(r)
        if r[i] == 0:
            j = next(k for k in range(i + 1) if r[k])
            r[i], r[j] = r[j], r[i]
        L[i, :i + 1] = r
    p = rng.sample(range(n), n)
    C = (L @ L.T)[np.ix_(p, p)]
    P = np.linalg.inv(C)
    sig = [int(round(math.sqrt(C[i, i]))) for i in range(n)]
    f = [10 * rng.choice([0, rng.randint(-60, 200), rng.randint(1, 9)]) for _ in range(n)]
    u = rng.choice([1, 3, 5])
    ev = dict(op="prec", u=u, src=[dict(f=f[i], sig=sig[i]) for i in range(n)])
    r, exc = attempt(flux_bounds, np.array(f, dtype=float), u, precisions=P)
    if exc:
        ev["exc"] = exc
    else:
        ev["lo"], ev["hi"] = rnds(r[0], 1000), rnds(r[1], 1000)
    return dict(cfg={}, ev=[ev])


COS = [(1, 1), (3, 5), (4, 5), (5, 13), (12, 13), (1, 2)]


def run_make(case):
    rng = random.Random(case["rseed"])
    n = rng.choice([1, 2, 2, 3, 5])
    bands = NAMES[:rng.randint(1, 3)]
    U = rng.choice([10, 4, 6])
    scene = rng.random() < .4
    linked = rng.random() < .5
    dt = sourcecat_dtype(bands=bands) if scene else np.dtype([("id", "i4")] + [(c, "f8") for c in bands + SHAPES])
    cat = np.zeros(n, dtype=dt)
    rows = []
    hasunc = rng.random() < .4
    unc = np.zeros(n, dtype=[(b, "f8") for b in bands])
    for i in range(n):
        fs = []
        for b in bands:
            x = root(rng)
            if hasunc:
                x["unc"] = rng.randint(1, 4000)
                unc[b][i] = x["unc"] / 16.
            cat[b][i] = value(x)
            fs.append(x)
        cn, cd = rng.choice(COS)
        cat["ra"][i], cat["dec"][i] = rng.uniform(1, 350), rng.choice([-1, 1]) * math.degrees(math.acos(cn / cd))
        cat["q"][i], cat["pa"][i], cat["sersic"][i], cat["rhalf"][i] = .7, .1, 2, .1
        rows.append(dict(f=fs, cn=cn, cd=cd))
    kw = dict(n_sig_flux=U / 2.)
    mode = rng.choice(["pix", "dpos2", "each"])
    if mode == "pix":
        npx, ps = rng.choice([1, 2, 5]), rng.choice([.03, .06])
        kw.update(n_pix=npx, pixscale=ps)
        d = [[round(npx * ps * 1e5)] * n] * 2
    elif mode == "dpos2":
        d = [[rng.randint(100, 20000)] * n for _ in range(2)]
        kw["dpos"] = [d[0][0] / 1e5, d[1][0] / 1e5]
        if rng.random() < .5:
            kw["dpos"] = np.array(kw["dpos"])
    else:
        d = [[rng.randint(100, 20000) for _ in range(n)] for _ in range(2)]
        kw["dpos"] = np.array(d) / 1e5
    for i in range(n):
        rows[i]["dra"], rows[i]["ddec"] = d[0][i], d[1][i]
    rq, rpa, rs, rr = [rng.randint(100, 500), rng.randint(800, 1000)], [-rng.randint(1500, 2000), rng.randint(1500, 2000)], \
        [rng.randint(500, 1500), rng.randint(3000, 6000)], [rng.randint(10, 50), rng.randint(200, 1000)]
    kw.update(sqrtq_range=tuple(v / 1000. for v in rq), pa_range=tuple(v / 1000. for v in rpa), sersic_range=tuple(v / 1000. for v in rs),
              rhalf_range=tuple(v / 1000. for v in rr))
    if hasunc:
        kw["unccat"] = unc
    c0, u0 = cat.copy(), unc.copy()
    ev = dict(op="make", u=U, row=rows, rq=rq, rpa=rpa, rs=rs, rr=rr)
    if scene:
        c0["source_index"] = np.arange(n)
        c0["is_valid"], c0["is_active"] = True, False
        if linked:
            s, exc = attempt(lambda: LinkedSuperScene(sourcecat=cat, bands=bands, bounds_kwargs=kw, roi=np.ones(n)))
            if "roi" in cat.dtype.names:
                c0["roi"] = cat["roi"]
        else:
            s, exc = attempt(lambda: SuperScene(sourcecat=cat, bands=bands, bounds_kwargs=kw))
        if not exc:
            s, exc = attempt(lambda: s.bounds_and_covs(np.arange(n))[0])
    else:
        s, exc = attempt(make_bounds, cat, bands, **kw)
    if exc:
        ev["exc"] = exc
        return dict(cfg={}, ev=[ev])
    ev["same"] = cat.tobytes() == c0.tobytes() and unc.tobytes() == u0.tobytes()
    out = []
    for i in range(len(s)):
        r = s[i]
        out.append(dict(f=[rnds(r[b], 640) for b in bands], ra=rnds(r["ra"] - c0["ra"][i], 3600e5), dec=rnds(r["dec"] - c0["dec"][i], 3600e5),
                        q=toks(r["q"], 1000), pa=toks(r["pa"], 1000), sersic=toks(r["sersic"], 1000), rhalf=toks(r["rhalf"], 1000)))
    ev["out"] = out
    return dict(cfg={}, ev=[ev])


def boxes_of(cat, bc, bands):
    return [[dict(lo=tok(bc[b][i, 0], 1000), hi=tok(bc[b][i, 1], 1000), f=tok(cat[b][i], 1000)) for i in range(len(cat))] for b in bands]


def run_adjust(case):
    rng = random.Random(case["rseed"])
    if "inp" in case:
        inp, ops = case["inp"], case["ops"]
    else:
        n, nb = rng.choice([1, 2, 3, 4]), rng.randint(1, 3)

        def box():
            lo = rng.randint(-5000, 3000)
            hi = lo + rng.randint(3, 9000)
            return dict(lo=lo, hi=hi, f=rng.choice([rng.randint(lo - 500, hi + 500), lo, hi, lo + 1, hi - 1, lo - 1, hi + 1, rng.randint(lo + 1, hi - 1)]))
        inp = [[box() for _ in range(n)] for _ in range(nb)]
        ops = [dict(hasmin=rng.random() < .6, min=rng.randint(-4000, 2000), fac=rng.choice([0, 0, 1, 2, 5]), move=rng.random() < .7)
               for _ in range(rng.randint(0, 3))]
    bands = NAMES[:len(inp)]
    n = len(inp[0])
    scene = case.get("scene", rng.random() < .5)
    dt = sourcecat_dtype(bands=bands)
    cat = np.zeros(n, dtype=dt)
    cat["ra"], cat["dec"] = 30 + np.arange(n) * 1e-4, -10.
    cat["q"], cat["pa"], cat["sersic"], cat["rhalf"] = .7, .1, 2, .1
    for b, c in zip(bands, inp):
        cat[b] = [x["f"] / 1000. for x in c]
    S = SuperScene(sourcecat=cat, bands=bands)
    bc = S.bounds_catalog
    for b, c in zip(bands, inp):
        bc[b][:, 0] = [x["lo"] / 1000. for x in c]
        bc[b][:, 1] = [x["hi"] / 1000. for x in c]
    evs = []
    other = [c for c in cat.dtype.names if c not in bands]
    otherb = [c for c in bc.dtype.names if c not in bands]
    for a in ops:
        before = boxes_of(cat, bc, bands)
        k0 = [cat[c].tobytes() for c in other] + [bc[c].tobytes() for c in otherb]
        kw = dict(active=cat if a["move"] else None)
        mn, fc = (a["min"] / 1000. if a["hasmin"] else None), a["fac"]
        how = rng.random()
        config = Namespace(minflux=mn, maxfluxfactor=fc)
        if how < .5 or not a["hasmin"]:
            kw["config"] = config
        else:
            kw.update(minflux=mn, maxfluxfactor=fc, config=config if rng.random() < .3 else None)
        sc = scene or not a["move"]
        ev = dict(op="adjust", inp=before, a=a, scene=sc)
        r, exc = attempt(adjust_bounds, S if sc else bc, bands, **kw)
        if exc:
            ev["exc"] = exc
        else:
            ev["out"] = boxes_of(cat, bc, bands)
            ev["same"] = k0 == [cat[c].tobytes() for c in other] + [bc[c].tobytes() for c in otherb] and (r is (S if sc else bc))
        evs.append(ev)
        if exc and exc != "AssertionError":
            return dict(cfg={}, ev=evs)
    ev = dict(op="check", inp=boxes_of(cat, bc, bands))
    r, exc = attempt(S.check_bounds) if rng.random() < .5 else attempt(check_bounds, cat, bc)
    if exc:
        ev["exc"] = exc
    evs.append(ev)
    # a position or shape outside
    c = rng.choice(SHAPES)
    i = rng.randrange(n)
    if not exc:
        lo, hi = bc[c][i]
        cat[c][i] = rng.choice([lo, hi, lo - (hi - lo) * .01, hi + (hi - lo) * .01])
        ev = dict(op="check", inp=[[dict(lo=0, hi=1000, f=0)]])
        r, exc = attempt(S.check_bounds)
        if exc:
            ev["exc"] = exc
        evs.append(ev)
    return dict(cfg={}, ev=evs)


def km(rng):
    return rng.randint(1, 12), rng.randint(1, 12)


def run_map(case):
    rng = random.Random(case["rseed"])
    n = case["n"]
    sc = [2. ** rng.choice([rng.randint(-30, 30), rng.randint(-16, 0)]) if rng.random() < .7 else 1. for _ in range(n)]
    w = 1 if n > 3 else 3
    lo = [rng.randint(-2048, 2047) / 1024. for _ in range(n)]
    hi = [l + rng.randint(512, 1024 * w) / 1024. for l in lo]
    K, M = zip(*[km(rng) for _ in range(n)])
    sc = np.array(sc)
    # some parameters lie far from zero compared with their range (right ascensions)
    off = np.array([rng.randint(1, 359) + .1 if rng.random() < .4 and 2 ** -17 < s <= 1 else 0. for s in sc])
    if rng.random() < .5:
        off = np.zeros(n)
    L, H = off + np.array(lo) * sc, off + np.array(hi) * sc
    z = np.log(np.array(K) / np.array(M))
    z0 = z.copy()
    evs = []
    ev = dict(op="map", lo=rnds(lo, Q), hi=rnds(hi, Q), k=list(K), m=list(M))
    form = rng.choice(["array", "list", "scalar" if n == 1 else "array"])
    if form == "scalar":
        T, exc = attempt(BoundedTransform, L[0], H[0])
    else:
        T, exc = attempt(BoundedTransform, L if form == "array" else list(L), H if form == "array" else list(H))
    nr = rng.randint(1, 4)
    rk = [[km(rng) for _ in range(n)] for _ in range(nr)]
    ch = np.log(np.array([[a / b for a, b in r] for r in rk]))

    def go():
        f = T.transform(z)
        iv = T.inverse_transform(f)
        j, lg, ld = T.jacobian(z), T.lndetjac_grad(z), T.lndetjac(z)
        parts = [BoundedTransform(L[i], H[i]).lndetjac(z[i:i + 1]) for i in range(n)]
        return f, iv, j, lg, ld, parts, T.transform(ch)
    if not exc:
        r, exc = attempt(go)
    if exc:
        ev["exc"] = exc
        return dict(cfg={}, ev=[ev])
    f, iv, j, lg, ld, parts, rows = r
    ev.update(fwd=rnds((np.asarray(f) - off) / sc, Q), inv=rnds(np.exp(np.asarray(iv)), Q), jac=rnds(np.asarray(j) / sc, Q), lg=rnds(lg, Q),
              vol=rnd(math.exp(min(ld - np.log(sc).sum(), 700)), Q), lnd=rnd(ld, 65536), parts=rnds(parts, 65536),
              rows=[rnds((r - off) / sc, Q) for r in np.asarray(rows)], rk=[[a for a, b in r] for r in rk], rm=[[b for a, b in r] for r in rk])
    if not np.array_equal(z, z0):
        ev["exc"] = "a modified input"
    evs.append(ev)
    # far out
    zmax = rng.choice([36, 36, 36, 650])
    za = np.array([rng.uniform(-zmax, zmax) for _ in range(n)])
    zb = za + np.array([rng.uniform(0, 1) for _ in range(n)])
    zb = np.minimum(zb, zmax)
    ev = dict(op="far")

    def far():
        a, b = T.transform(za), T.transform(zb)
        return a, b, T.jacobian(za), T.lndetjac(za), T.lndetjac_grad(za)
    r, exc = attempt(far)
    if exc:
        ev["exc"] = exc
    else:
        a, b = r[:2]
        ev["cl"], ev["cu"] = [int(v) for v in np.sign(a - L)], [int(v) for v in np.sign(a - H)]
        ev["up"] = [int(v) for v in np.sign(b - a)]
        ev["finite"] = bool(all(np.all(np.isfinite(v)) for v in r))
    evs.append(ev)
    zi = np.array([rng.randint(-1000, 1000) for _ in range(n)], dtype=float)
    ev = dict(op="ident", z=toks(zi))
    I = Transform(n)
    r, exc = attempt(lambda: (I.transform(zi), I.inverse_transform(zi), I.jacobian(zi), I.lndetjac_grad(zi), I.lndetjac(zi)))
    if exc:
        ev["exc"] = exc
    else:
        ev.update(fwd=toks(r[0]), inv=toks(r[1]), jac=toks(r[2]), lg=toks(r[3]), lnd=tok(r[4], 1e6))
    evs.append(ev)
    # barriers
    alpha = rng.choice([None, None, -.5, -.99, 1., 2.])
    K, M = zip(*[km(rng) for _ in range(n)])
    ev = dict(op="barrier", k=list(K), m=list(M), bar=alpha is None or alpha < 0)
    base = LogPrior if rng.random() < .1 else ExpBeta
    if base is LogPrior:
        ev["bar"] = False
    P, exc = attempt(lambda: base(L, H) if alpha is None or base is LogPrior else ExpBeta(L, H, alpha=alpha))
    x = np.array(K) / (np.array(K) + np.array(M))
    h = 1 / 192.

    def vals():
        out = []
        for c in range(min(n, 6)):
            v = []
            for s in (-2, -1, 1, 2):
                y = x.copy()
                y[c] += s * h
                v.append(float(P(L + y * (H - L))[0]))
            v = np.array(v)
            out.append(v - v.mean())
        p, g = P(L + x * (H - L))
        e = np.array([rng.choice([1e-7, 1e-3, 1 - 1e-7]) for _ in range(n)])
        pe, ge = P(L + e * (H - L))
        return out, np.asarray(g, dtype=float) * (H - L), bool(np.isfinite(p) and np.all(np.isfinite(g)) and np.isfinite(pe) and np.all(np.isfinite(ge)))
    if not exc:
        r, exc = attempt(vals)
    if exc:
        ev["exc"] = exc
    else:
        ev["v"], ev["g"], ev["finite"] = [rnds(v, 65536) for v in r[0]], rnds(r[1][:min(n, 6)], 65536), r[2]
        if len(r[1]) != n:
            ev["exc"] = "a gradient of the wrong length"
    evs.append(ev)
    return dict(cfg={}, ev=evs)


def run_prep(case):
    rng = random.Random(case["rseed"])
    work = tempfile.mkdtemp(prefix="vbnd_")
    try:
        nb = rng.randint(1, 3)
        w = World(rng, work, nb, nb, 1, maxpix=8)
        p = w.patcher(list(range(nb)))
        bl = rng.sample(range(nb), rng.randint(1, nb))
        p.build_patch(None, allbands=[w.bands[b] for b in bl])
        ref = np.array(p.patch_reference_coordinates, dtype=float)
        na = rng.randint(1, 4)
        act = w.rows([w.src() for _ in range(na)])
        bc = make_bounds(act, w.bands, shapenames=SHAPES)
        unit = dict(ra=3600e4, dec=3600e4)
        off = dict(ra=ref[0], dec=ref[1])
        wlo, whi = [], []
        t = rng.randint(1, 50)
        names = [w.bands[b] for b in bl] + SHAPES
        for i in range(na):
            for c in w.bands + SHAPES:
                a = t * 7 + rng.randint(0, 3)
                b = a + rng.randint(20, 400)
                t += 60
                u = unit.get(c, 1000.)
                bc[c][i] = off.get(c, 0.) + a / u, off.get(c, 0.) + b / u
                act[c][i] = off.get(c, 0.) + (a + rng.randint(3, b - a - 3)) / u
            wlo += [tok(bc[c][i, 0] - off.get(c, 0.), unit.get(c, 1000.), .1) for c in names]
            whi += [tok(bc[c][i, 1] - off.get(c, 0.), unit.get(c, 1000.), .1) for c in names]
        U = np.array([unit.get(c, 1000.) for c in names] * na)
        ev = dict(op="prep", wlo=wlo, whi=whi)
        r, exc = attempt(p.prepare_model, active=act, bounds=bc, shapes=rng.choice([SHAPES, None]))
        if exc:
            ev["exc"] = exc
            return dict(cfg={}, ev=[ev])
        m, q = r
        k, mm = zip(*[km(rng) for _ in q])
        z = np.log(np.array(k) / np.array(mm))
        # absolute positions, from the reference of the prepared patch
        A = np.array([dict(ra=p.patch_reference_coordinates[0] - ref[0], dec=p.patch_reference_coordinates[1] - ref[1]).get(c, 0.) for c in names] * na)
        out, exc = attempt(lambda: ((m.transform.lower + A) * U, (m.transform.upper + A) * U, (q + A) * U, (m.make_transform(z) + A) * U))
        if exc:
            ev["exc"] = exc
        else:
            ev.update(lo=toks(out[0], 1, .1), hi=toks(out[1], 1, .1), q=rnds(out[2]), at=rnds(out[3]), k=list(k), m=list(mm))
        return dict(cfg={}, ev=[ev])
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(c):
    rng = c.rng
    hist = c.model("MCBounds", dict(MaxN=c.q(1, 2), Roots="{0, 1, 2, 3, 5, 8, 40}", Us="{1, 2, 5, 10}"), invariants=["GenInside", "Widened", "Moved"])
    # values at least two eps apart (bounds 4 units wide are the narrowest above)
    cap = c.q(2500, 40000)
    if len(hist) > cap:
        hist = rng.sample(hist, cap)
    seed = lambda: rng.randint(0, 2 ** 31)
    groups = [("bounds adjusted as the model does", run_adjust, [dict(h, rseed=seed()) for h in hist]),
              ("bounds adjusted and checked", run_adjust, [dict(rseed=seed()) for _ in range(c.q(600, 8000))]),
              ("default flux bounds", run_flux, [dict(rseed=seed()) for _ in range(c.q(400, 5000))]),
              ("flux bounds from precisions", run_prec, [dict(rseed=seed()) for _ in range(c.q(300, 3000))]),
              ("bounds catalogues", run_make, [dict(rseed=seed()) for _ in range(c.q(800, 8000))]),
              ("maps and barriers", run_map, [dict(n=rng.choice([1, 1, 2, 3, 3, 8, 30]), rseed=seed()) for _ in range(c.q(1000, 10000))]),
              ("prepared models", run_prep, [dict(rseed=seed()) for _ in range(c.q(120, 1500))])]
    for label, fn, cases in groups:
        tr = c.execute(fn, cases)
        c.validate("BoundsTrace", tr, cases, label=label, chunk=4000)
    c.assumptions += ["bounds are at least twice the clipping margin (0.001) apart",
                      "sampling positions within 36 of zero, beyond which the sigmoid has no double precision",
                      "precision matrices are positive definite, uncertainties positive"]
