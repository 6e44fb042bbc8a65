"""Execute checkout / check-in histories on the real SuperScene and project them for specs/Scene.tla."""
import json, math, os, random, shutil, tempfile, zlib

import numpy as np

from vlib.core import attempt
from forcepho import superscene
from forcepho.superscene import SuperScene, LinkedSuperScene, sourcecat_dtype
from astropy.io import fits

SHAPES = ["ra", "dec", "q", "pa", "sersic", "rhalf"]
SCALE = {"ra": 3.6e7, "dec": 3.6e7, "q": 1e4, "pa": 1e4, "sersic": 1e4, "rhalf": 1e3}


def project(ra, dec, ra0, dec0):
    """Sky -> offset frame centred on (ra0, dec0), in mas (independent of astropy)."""
    ra, dec, ra0, dec0 = [np.deg2rad(np.asarray(v, dtype=float)) for v in (ra, dec, ra0, dec0)]
    x, y, z = np.cos(dec) * np.cos(ra - ra0), np.cos(dec) * np.sin(ra - ra0), np.sin(dec)
    xx = np.cos(dec0) * x + np.sin(dec0) * z
    zz = -np.sin(dec0) * x + np.cos(dec0) * z
    k = np.degrees(1) * 3.6e6
    return np.arctan2(y, xx) * k, np.arcsin(np.clip(zz, -1, 1)) * k


class Rig:
    """One real scene and its projection."""

    def __init__(self, case, work):
        self.case = case
        self.work = work
        self.rng = random.Random(case["rseed"])
        self.bands = case["bands"]
        self.cols = self.bands + SHAPES
        n = case["n"]
        self.n = n
        ra0, dec0 = case["ra0"], case["dec0"]
        self.ra0, self.dec0 = ra0, dec0
        cat = np.zeros(n, dtype=sourcecat_dtype(bands=self.bands))
        cat["id"] = case["ids"]
        cat["ra"] = ra0 + np.array(case["x"]) / 3.6e6 / np.cos(np.deg2rad(dec0))
        cat["dec"] = dec0 + np.array(case["y"]) / 3.6e6
        cat["rhalf"] = np.array(case["rh"]) / 1e3
        cat["q"] = [self.rng.randint(4100, 9900) / 1e4 for _ in range(n)]
        cat["pa"] = [self.rng.randint(-15000, 15000) / 1e4 for _ in range(n)]
        cat["sersic"] = [self.rng.randint(10100, 49000) / 1e4 for _ in range(n)]
        for b in self.bands:
            cat[b] = [self.rng.randint(1000, 900000) / 1e3 for _ in range(n)]
        # values a freshly loaded state may carry
        cat["n_iter"] = case.get("niter0") or 0
        cat["n_patch"] = case.get("npatch0") or 0
        cat["is_active"] = self.rng.choice([0, 1])
        kw = dict(sourcecat=cat, bands=list(self.bands), statefile=os.path.join(work, "state.fits"),
                  target_niter=case["target"], maxactive_fraction=case["frac"] / 1000.,
                  maxactive_per_patch=case["maxactive"], nscale=case["nscale"],
                  boundary_radius=case["B"] / 1e3, maxradius=case["maxr"] / 1e3, minradius=case["minr"] / 1e3)
        if case["kind"] == "circ":
            self.s = SuperScene(**kw)
        else:
            roi = None if case["roi"][0] < 0 else np.array(case["roi"]) / 1e3
            self.s = LinkedSuperScene(buffer=case["buffer"] / 1e3, roi=roi, strict=case["strict"], **kw)
        mra, mdec = np.median(cat["ra"]), np.median(cat["dec"])
        self.mid = (mra, mdec)
        x, y = project(cat["ra"], cat["dec"], mra, mdec)
        self.out = []
        self.ntask = 0
        self.B = np.arange(1, len(self.cols) ** 2 + 1, dtype=float).reshape(len(self.cols), -1)
        p = self.post()
        self.cfg = dict(n=n, niter=p["niter"], npatch=p["npatch"], x=[int(round(v)) for v in x], y=[int(round(v)) for v in y], rh=p["val_rh"],
                        roi=case["roi"], val=p["val"], bnd=p["bnd"], cov=p["cov"], dig=self.digest(),
                        kind=case["kind"], maxactive=case["maxactive"], nscale=case["nscale"], B=case["B"],
                        maxr=case["maxr"], minr=case["minr"], buffer=case["buffer"], strict=case["strict"],
                        target=case["target"], frac=case["frac"])

    # -- projections ---------------------------------------------------
    def scale(self, c):
        return SCALE.get(c, 1e3)

    def row(self, r):
        ref = {"ra": self.ra0, "dec": self.dec0}
        return [int(r["id"]), int(r["source_index"]) + 1] + \
               [int(round((float(r[c]) - ref.get(c, 0.)) * self.scale(c))) for c in self.cols]

    def brow(self, r):
        ref = {"ra": self.ra0, "dec": self.dec0}
        res = []
        for c in self.cols:
            for v in r[c]:
                z = (float(v) - ref.get(c, 0.)) * self.scale(c)
                res.append(int(round(z)) if np.isfinite(z) and abs(z) < 2e9 else 1999999999)
        return res

    def covtok(self, m):
        """-1 for the initial identity; t for t*pattern; -2 for anything else."""
        m = np.asarray(m)
        if m.shape != self.B.shape:
            return -2
        if np.array_equal(m, np.eye(len(self.cols))):
            return -1
        t = m[0, 0]
        return int(t) if t == int(t) and np.array_equal(m, t * self.B) else -2

    def logs(self, sl, pl):
        return [[str(t) for t in sl.get(k, [])] for k in range(self.n)], [str(t) for t in pl]

    def post(self):
        s = self.s
        c = s.sourcecat
        sl, pl = self.logs({int(k): v for k, v in s.sourcelog.items()}, s.patchlog)
        return dict(act=[int(bool(v)) for v in c["is_active"]], valid=[int(bool(v)) for v in c["is_valid"]],
                    niter=[int(v) for v in c["n_iter"]], npatch=[int(v) for v in c["n_patch"]],
                    nact=int(getattr(s, "n_active", 0)), nfix=int(getattr(s, "n_fixed", 0)),
                    undone=bool(s.undone), sparse=bool(s.sparse),
                    val=[self.row(r) for r in c], val_rh=[int(round(float(v) * 1e3)) for v in c["rhalf"]],
                    bnd=[self.brow(r) for r in s.bounds_catalog], cov=[self.covtok(m) for m in s.covariance_matrices],
                    slog=sl, plog=pl)

    def digest(self):
        s = self.s
        h = zlib.crc32(np.ascontiguousarray(s.sourcecat).tobytes())
        h = zlib.crc32(np.ascontiguousarray(s.bounds_catalog).tobytes(), h)
        h = zlib.crc32(np.ascontiguousarray(s.covariance_matrices).tobytes(), h)
        h = zlib.crc32(json.dumps([sorted((int(k), v) for k, v in s.sourcelog.items()), s.patchlog,
                                   int(s.n_active), int(s.n_fixed)]).encode(), h)
        return h & 0x3fffffff

    def disk(self, path):
        try:
            c = fits.getdata(path)
            with open(path.replace(".fits", "_log.json")) as f:
                lg = json.load(f)
            sl, pl = self.logs({int(k): v for k, v in lg["sourcelog"].items()}, lg["patchlog"])
            return dict(there=len(c) == self.n, val=[self.row(r) for r in c], act=[int(bool(v)) for v in c["is_active"]],
                        valid=[int(bool(v)) for v in c["is_valid"]], niter=[int(v) for v in c["n_iter"]],
                        npatch=[int(v) for v in c["n_patch"]], slog=sl, plog=pl)
        except Exception as e:
            return dict(there=False, why=f"{type(e).__name__}: {e}")

    def xy(self, ra, dec):
        x, y = project(ra, dec, *self.mid)
        return int(round(float(x))), int(round(float(y)))

    # -- operations ----------------------------------------------------
    def checkout(self, seed, mf):
        s = self.s
        ev = dict(op="checkout", seed=seed, mf=mf, act=[], fix=[], rad=0, cx=0, cy=0, arow=[], frow=[])
        kw = {}
        if self.case["kind"] != "circ" and mf >= 0:
            kw["max_fixed"] = mf
        np.random.seed(self.rng.randint(0, 2 ** 31 - 1))
        r, exc = attempt(s.checkout_region, seed_index=seed - 1, **kw) if seed > 0 else attempt(s.checkout_region, **kw)
        if exc:
            ev.update(res="exc", exc=exc)
        else:
            region, a, f = r
            if a is None:
                ev.update(res="refused")
            else:
                ev.update(res="ok", act=[int(v) + 1 for v in a["source_index"]],
                          fix=[] if f is None else [int(v) + 1 for v in f["source_index"]],
                          rad=int(round(region.radius * 3.6e6)),
                          arow=[self.row(v) for v in a], frow=[] if f is None else [self.row(v) for v in f])
                ev["cx"], ev["cy"] = self.xy(region.ra, region.dec)
                self.out.append((a, f))
        return ev

    def newrows(self, a, rev):
        rng = self.rng
        order = list(range(len(a)))
        if rev == 1 or rev is True:
            order.reverse()
        elif rev == 2:
            rng.shuffle(order)
        new = a[order].copy()
        for r in new:
            for b in self.bands:
                r[b] = rng.randint(1000, 900000) / 1e3
            for c, lo, hi in (("q", 4100, 9900), ("pa", -15000, 15000), ("sersic", 10100, 49000)):
                r[c] = rng.randint(lo, hi) / 1e4
            i = int(r["source_index"])
            j = self.case["jitter"]
            r["rhalf"] = max(10, self.case["rh"][i] + rng.randint(-j, j) // 2) / 1e3
            r["ra"] = self.ra0 + (self.case["x"][i] + rng.randint(-j, j)) / 3.6e6 / math.cos(math.radians(self.dec0))
            r["dec"] = self.dec0 + (self.case["y"][i] + rng.randint(-j, j)) / 3.6e6
        return new

    def checkin(self, k, rev, niter, task, hasb, hasc, flush, junk=True):
        s = self.s
        a, f = self.out.pop(k - 1)
        new = self.newrows(a, rev)
        if junk:
            # only the parameters are replaced: whatever else the rows carry must not reach the catalogue
            new["id"] = -7
            new["n_iter"], new["n_patch"] = 977, 55
        ids = [int(v) + 1 for v in new["source_index"]]
        ev = dict(op="checkin", k=k, ids=ids, niter=niter, task=task, hasb=bool(hasb), hasc=bool(hasc))
        kw = dict(niter=niter)
        if f is not None:
            kw["fixed"] = f
        if task:
            kw["taskID"] = task
        if hasb:
            nb = s.bounds_catalog[[i - 1 for i in ids]].copy()
            for r in nb:
                for c in self.cols:
                    r[c] = np.array([-self.rng.randint(1, 10000), self.rng.randint(1, 10000)]) / self.scale(c) * 10
                    if c in ("ra", "dec"):
                        r[c] += (self.ra0 if c == "ra" else self.dec0)
            kw["new_bounds"] = nb
            ev["bnd"] = [self.brow(r) for r in nb]
        else:
            ev["bnd"] = []
        if hasc:
            toks = [self.rng.randint(2, 100000) for _ in ids]
            kw["block_covs"] = np.array([t * self.B for t in toks])
            ev["cov"] = toks
        else:
            ev["cov"] = []
        if flush:
            kw["flush"] = True
        for q in (s.statefilename, s.statefilename.replace(".fits", "_log.json")):
            if os.path.exists(q):
                os.remove(q)
        vals = []
        for r, i in zip(new, ids):
            v = self.row(r)
            v[0] = int(self.case["ids"][i - 1])
            vals.append(v)
        ev["vals"] = vals
        xy = [self.xy(r["ra"], r["dec"]) for r in new]
        ev["px"], ev["py"] = [p[0] for p in xy], [p[1] for p in xy]
        ev["rh"] = [int(round(float(r["rhalf"]) * 1e3)) for r in new]
        keep = new.copy()
        _, exc = attempt(s.checkin_region, new, **kw)
        if exc:
            ev["exc"] = exc
        elif flush:
            ev["disk"] = self.disk(s.statefilename)
            ev["propagated"] = True
        # the caller may go on using its arrays
        new[:] = 0
        if hasb:
            kw["new_bounds"][:] = 0
        if hasc:
            kw["block_covs"][:] = 0
        del keep
        return ev

    def write(self, how):
        s = self.s
        ev = dict(op="write", how=how, propagated=True)
        path = s.statefilename
        for q in (path, path.replace(".fits", "_log.json")):
            if os.path.exists(q):
                os.remove(q)

        class Boom(Exception):
            pass
        exc = None
        if how == "writeout":
            _, exc = attempt(s.writeout)
        elif how == "named":
            path = os.path.join(self.work, f"other{self.rng.randint(0, 9)}.fits")
            _, exc = attempt(s.writeout, path)
        elif how == "exit":
            def f():
                with s:
                    pass
            _, exc = attempt(f)
        else:
            def f():
                with s as inner:
                    assert inner is s
                    raise Boom()
            _, e = attempt(f)
            if e is None:
                ev["propagated"] = False
            elif e != "Boom":
                exc = e
        if exc:
            ev["exc"] = exc
        ev["disk"] = self.disk(path)
        return ev

    def query(self, ids):
        r, exc = attempt(self.s.bounds_and_covs, np.array([i - 1 for i in ids]))
        ev = dict(op="query", ids=ids, qb=[], qc=[])
        if exc:
            ev["exc"] = exc
            return ev
        b, cov = r
        P = len(self.cols)
        ev["qb"] = [self.brow(v) for v in b]
        toks = []
        if cov is None or np.shape(cov) != (P * len(ids), P * len(ids)):
            toks = [-3]
        else:
            z = np.array(cov).copy()
            for k in range(len(ids)):
                toks.append(self.covtok(z[k * P:(k + 1) * P, k * P:(k + 1) * P]))
                z[k * P:(k + 1) * P, k * P:(k + 1) * P] = 0
            if np.any(z):
                toks.append(-4)
        ev["qc"] = toks
        return ev

    def weights(self, which):
        f = self.s.seed_weight if which == "seed" else self.s.sigmoid_weight
        r, exc = attempt(f)
        ev = dict(op="weights", which=which)
        if exc:
            ev["exc"] = exc
            ev["w"] = [0] * self.n
        else:
            ev["w"] = [int(round(float(v) * 1e6)) if np.isfinite(v) else -1 for v in r]
        return ev

    def step(self, op):
        o = op["op"]
        s = self.s
        if o == "checkout":
            ev = self.checkout(op["seed"], op.get("mf", -1))
        elif o == "checkin":
            if op["k"] > len(self.out):
                return None
            ev = self.checkin(op["k"], op["rev"], op["niter"], op["task"], op["hasb"], op["hasc"], op["flush"])
        elif o == "reset":
            ev = dict(op="reset")
            _, exc = attempt(s.reset)
            if exc:
                ev["exc"] = exc
            self.out = []
        elif o == "write":
            ev = self.write(op["how"])
        elif o == "query":
            ev = self.query(op["ids"])
        elif o == "weights":
            ev = self.weights(op["which"])
        elif o == "groups":
            r, exc = attempt(s.make_group_catalog)
            ev = dict(op="groups")
            if exc:
                ev["exc"] = exc
            else:
                ev["gid"] = [int(v) for v in r]
        elif o == "grow":
            r, exc = attempt(s.grow_source, op["seed"] - 1)
            ev = dict(op="grow", seed=op["seed"])
            if exc:
                ev["exc"] = exc
            else:
                ev["members"] = [int(v) + 1 for v in r]
        elif o == "circle":
            ra = self.ra0 + op["x"] / 3.6e6 / math.cos(math.radians(self.dec0))
            dec = self.dec0 + op["y"] / 3.6e6
            r, exc = attempt(s.overlap_circle, ra, dec, op["rad"] / 1e3)
            ev = dict(op="circle", rad=op["rad"])
            ev["cx"], ev["cy"] = self.xy(ra, dec)
            if exc:
                ev["exc"] = exc
            else:
                ev["members"] = [int(v) + 1 for v in r["source_index"]]
        else:
            raise ValueError(o)
        ev["dig"] = self.digest()
        ev["post"] = self.post()
        ev["post"].pop("val_rh")
        return ev


def run_case(case):
    work = tempfile.mkdtemp(prefix="scene_")
    try:
        rig = Rig(case, work)
        evs = []
        for op in case["ops"]:
            if "auto" in op:
                op = auto(rig, op)
                if op is None:
                    continue
            ev = rig.step(op)
            if ev is None:
                break
            evs.append(ev)
            if ev["op"] != "checkout" and "exc" in ev:
                break
        return dict(cfg=rig.cfg, ev=evs)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def auto(rig, op):
    """Random operation drawn while the history unfolds (needs to know what is outstanding)."""
    rng = rig.rng
    kind = rig.case["kind"]
    w = op["auto"]
    u = rng.random()
    nout = len(rig.out)
    pin = w.get("pin", 0.35)
    if nout and u < pin:
        rig.ntask += 1
        return dict(op="checkin", k=rng.randint(1, nout), rev=rng.choice([0, 1, 2, 2]),
                    niter=rng.choice([1, 3, 7, 20, 50, 0, -1, -5]), task=rng.choice(["", f"p{rig.ntask}", f"{rig.ntask}", "again"]),
                    hasb=rng.random() < .5, hasc=rng.random() < .5, flush=rng.random() < w.get("flush", .15))
    if u < 0.80:
        return dict(op="checkout", seed=rng.choice([-1, rng.randint(1, rig.n), rng.randint(1, rig.n)]),
                    mf=rng.choice([-1, -1, 1, 2, 0, 5]))
    if u < 0.85:
        return dict(op="query", ids=rng.sample(range(1, rig.n + 1), rng.randint(1, rig.n)))
    if u < 0.89:
        return dict(op="weights", which="seed")
    if u < 0.93:
        return dict(op="write", how=rng.choice(["writeout", "named", "exit", "abort"]))
    if u < 0.95:
        return dict(op="reset")
    if kind == "circ":
        return dict(op="checkout", seed=rng.randint(1, rig.n), mf=-1)
    r = rng.random()
    if r < .4:
        return dict(op="groups")
    if r < .7:
        return dict(op="grow", seed=rng.randint(1, rig.n))
    return dict(op="circle", x=rng.randint(-8000, 8000), y=rng.randint(-8000, 8000), rad=rng.randint(100, 3000))


def layout(rng, n, kind, span=7000, clump=False):
    x, y = [], []
    while len(x) < n:
        if clump and x and rng.random() < .7:
            j = rng.randrange(len(x))
            a, b = x[j] + rng.randint(-600, 600), y[j] + rng.randint(-600, 600)
        else:
            a, b = rng.randint(-span, span), rng.randint(-span, span)
        x.append(a)
        y.append(b)
    rh = [rng.choice([40, 60, 90, 130, 200, 280]) + rng.randint(0, 20) for _ in range(n)]
    roi = [-1] * n
    if kind == "link" and rng.random() < .7:
        roi = [rng.choice([60, 150, 300, 500, 900]) + rng.randint(0, 30) for _ in range(n)]
    return x, y, rh, roi


def random_case(rng, nmax=14, ops=25):
    kind = rng.choice(["circ", "link", "link"])
    n = rng.randint(2, nmax)
    x, y, rh, roi = layout(rng, n, kind, span=rng.choice([1500, 4000, 7000]), clump=rng.random() < .6)
    B = rng.choice([900, 1500, 2500, 4000, 8000])
    roi = [min(v, B - 1) for v in roi]
    return dict(kind=kind, n=n, x=x, y=y, rh=rh, roi=roi, B=B, maxr=rng.choice([700, 1200, 2500, 6000]),
                minr=rng.choice([1, 300, 1000]), maxactive=rng.choice([1, 2, 3, 5, 20]), nscale=rng.choice([1, 2, 3]),
                buffer=rng.choice([0, 100, 300, 700]), strict=rng.random() < .5, target=rng.choice([1, 20, 57, 200]),
                frac=rng.choice([7, 103, 331, 507, 997]), bands=rng.choice([["f1"], ["CLEAR", "g"], ["b", "a", "c"]]),
                ids=rng.sample(range(1, 9000), n), ra0=rng.choice([0.1, 53.117, 150.5, 350.2]),
                dec0=rng.choice([0.0, -27.8, 2.2, 62.2]), jitter=rng.choice([0, 10, 40, 200]),
                niter0=[rng.choice([0, 0, 5, 300]) for _ in range(n)] if rng.random() < .3 else None,
                npatch0=rng.choice([None, 3]),
                rseed=rng.randint(0, 2 ** 31), ops=[dict(auto=dict(pin=rng.choice([.2, .35, .5]))) for _ in range(ops)])


def small_layouts():
    """Layouts of the closed model: 1-d/2-d arrangements that separate the mechanisms."""
    base = dict(ra0=53.117, dec0=0.0, jitter=0, bands=["f1"], nscale=1, buffer=100, strict=False, target=3, frac=507,
                minr=300, rseed=11)
    L = []

    def add(kind, x, y, rh, roi, **kw):
        d = dict(base, kind=kind, n=len(x), x=x, y=y, rh=rh, roi=roi, ids=[100 + 7 * k for k in range(len(x))],
                 B=2500, maxr=1500, maxactive=2)
        d.update(kw)
        L.append(d)
    # circular: a line with uneven spacing
    add("circ", [0, 900, 2500, 4700], [0, 0, 0, 0], [100, 150, 120, 90], [-1] * 4)
    add("circ", [0, 700, 300, 3900], [0, 150, 1100, 0], [100, 250, 60, 90], [-1] * 4, B=1300, maxactive=3)
    # linked: a chain whose friends reach far beyond the boundary radius of its end
    add("link", [0, 800, 1700, 2700, 3800], [0] * 5, [100] * 5, [450, 460, 500, 560, 600], B=620, maxactive=3)
    add("link", [0, 900, 2500, 3100], [0, 0, 0, 0], [100] * 4, [500, 510, 320, 330], B=700, maxactive=2)
    add("link", [0, 900, 2500, 3100], [0, 0, 0, 0], [100] * 4, [500, 510, 320, 330], B=1900, maxactive=3, strict=True)
    add("link", [0, 2100, 4500, 900], [0, 100, 0, 700], [100, 220, 160, 140], [-1] * 4, B=2600, maxactive=1)
    return L


def tla_cfg(case):
    work = tempfile.mkdtemp(prefix="scene_")
    try:
        return Rig(case, work).cfg
    finally:
        shutil.rmtree(work, ignore_errors=True)


def probes(rng, case, ops):
    """Observation operations appended after a model history."""
    res = [dict(op="query", ids=rng.sample(range(1, case["n"] + 1), rng.randint(1, case["n"]))),
           dict(op="weights", which="seed"),
           dict(op="write", how=rng.choice(["writeout", "named", "exit", "abort"]))]
    return ops + [rng.choice(res)]


def run(c, prop):
    lays = small_layouts()
    full = prop in ("C02", "C03")
    cfgs = [tla_cfg(l) for l in lays]
    hist = c.model("MCScene", dict(Depth=c.q(4, 5), MaxOut=3, NIters="{0, 2}" if full else "{2}",
                                   Full="TRUE" if full else "FALSE"),
                   invariants=["Exclusive", "Counts", "Logs"], view="View", data=cfgs, timeout=1500, emit="EmitC")
    rng = c.rng
    cap = c.q(2500, 12000)
    c.extra["model_behaviours_total"] = len(hist)
    if len(hist) > cap:
        hist = rng.sample(hist, cap)
    c.extra["model_behaviours_replayed"] = len(hist)
    cases = []
    for h in hist:
        l = lays[h["c"] - 1]
        ops = [dict(o) for o in h["h"]]
        cases.append(dict(l, ops=probes(rng, l, ops) if full else ops, rseed=rng.randint(0, 2 ** 31)))
    tr = c.execute(run_case, cases)
    c.validate("SceneTrace", tr, cases, label="model histories replayed", constants=dict(PROP=f'"{prop}"'))
    cases = [random_case(rng, ops=c.q(25, 40)) for _ in range(c.q(320, 3000))]
    tr = c.execute(run_case, cases)
    oks = sum(1 for t in tr if "ev" in t for e in t["ev"] if e["op"] == "checkout" and e["res"] == "ok")
    ref = sum(1 for t in tr if "ev" in t for e in t["ev"] if e["op"] == "checkout" and e["res"] == "refused")
    c.extra["random_checkouts_ok"], c.extra["random_checkouts_refused"] = oks, ref
    c.validate("SceneTrace", tr, cases, label="random histories", constants=dict(PROP=f'"{prop}"'))
    c.assumptions += ["scenes do not straddle RA=0 (the scene frame uses median RA)", "radius of influence <= boundary radius"]
