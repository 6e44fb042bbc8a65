"""C18: scenes, their parameter vectors, catalogues, kernel proposals and re-centring."""
import copy, math, os, random, shutil, tempfile, warnings

import h5py
import numpy as np

from vlib.core import attempt
from forcepho.sources import Scene, Star, SimpleGalaxy, Galaxy, ConformalShearGalaxy
from forcepho.patches import CPUPatchMixin
from forcepho.patches.pixel_patch import DirectPatch

Q = 1 << 22
FQ = 1 << 10
BAD = 1999999999
COLS = dict(G=["ra", "dec", "q", "pa", "sersic", "rhalf"], G2=["ra", "dec", "q", "pa"], E=["ra", "dec", "q", "pa"], S=["ra", "dec"],
            C=["ra", "dec", "ep", "ec", "sersic", "rhalf"], C2=["ra", "dec", "ep", "ec"])
CLS = dict(G=Galaxy, G2=Galaxy, E=SimpleGalaxy, S=Star, C=ConformalShearGalaxy, C2=ConformalShearGalaxy)
SHAPES = {"ra", "dec", "q", "pa", "sersic", "rhalf", "ep", "ec"}


class P(DirectPatch, CPUPatchMixin):
    pass


def unit(n):
    return Q if n in SHAPES else FQ


def tok(v, s):
    v = float(v) * s
    if not math.isfinite(v) or abs(v) > 1.9e9 or abs(v - round(v)) > 1e-3:
        return BAD
    return int(round(v))


def fx(a):
    a = np.asarray(a, dtype=float) * Q
    if a.ndim != 1:
        return [BAD]
    return [int(round(v)) if math.isfinite(v) and abs(v) < 1.9e9 else BAD for v in a]


def near(v, s):
    v = float(v) * s
    return int(round(v)) if math.isfinite(v) and abs(v) < 1.9e9 else BAD


class S:
    def __init__(self, rng, work):
        self.rng, self.evs = rng, []
        self.names = ["F090W", "F115W", "F200W", "HST_I", "z", "B6"]
        rng.shuffle(self.names)
        self.spl = os.path.join(work, "s.h5")
        nr = rng.choice([1, 2, 3, 5])
        rt = sorted(rng.sample(range(0, 60), nr))
        self.radii = [r * 2 ** 15 for r in rt]               # Q22, up to .47
        poly = [[rng.randint(-400, 400) * 2 ** 10, rng.randint(-80, 80) * 2 ** 10, rng.randint(-900, 900) * 2 ** 10,
                 rng.randint(-200, 200) * 2 ** 10, rng.randint(-500, 500) * 2 ** 10] for _ in range(nr)]
        ns, rs = np.linspace(1, 5, rng.choice([5, 9])), np.linspace(.03125, .4375, rng.choice([5, 12]))
        n, r = [a.reshape(-1) for a in np.meshgrid(ns, rs, indexing="ij")]
        A = np.stack([sum(c / Q * t for c, t in zip(p, (np.ones_like(n), n, r, n * r, r * r))) for p in poly], -1)
        with h5py.File(self.spl, "w") as f:
            f["nsersic"], f["rh"], f["amplitudes"], f["radii"] = n, r, A, np.array(self.radii) / Q
        self.cfg = dict(radii=self.radii, poly=poly, nmin=Q)
        self.sc = {}
        self.given = {}
        self.span = {}                       # how far positions of a scene go below zero
        self.meta = {}                       # scene -> list of (kind, bands, fixed)
        self.pat = [P(pixel_dict={}, header_dict={}, psfstore=None, splinedata=self.spl) for _ in range(2)]
        self.ref = [0, 0]
        self.kept = []
        self.gran = {}                       # positions of a scene are multiples of this

    # ---- values ----
    def value(self, n, rel=False):
        g = self.rng
        if n == "ra":
            return 32 * (g.randint(-32000, 32000) if rel else g.randint(0, 360 * Q // 32 - 1))
        if n == "dec":
            return 32 * (g.randint(-32000, 32000) if rel else g.randint(-80 * Q // 32, 80 * Q // 32))
        if n == "q":
            return 256 * g.randint(1700, 16384)
        if n == "pa":
            return 256 * g.randint(-25000, 25000)
        if n in ("ep", "ec"):
            return 256 * g.choice([-1, 1]) * g.randint(600, 20000)
        if n == "sersic":
            return 256 * (g.randint(16384, 5 * 16384) if g.random() < .85 else g.randint(0, 16383))
        if n == "rhalf":
            while True:
                v = 256 * g.randint(512, 7168) if g.random() < .95 else -256 * g.randint(1, 600)
                d = sorted(abs(v - r) for r in self.radii)
                if len(d) == 1 or d[1] - d[0] > 64:
                    return v
        u = g.random()
        return 0 if u < .1 else g.randint(-200, 16000) if u < .5 else g.randint(-10 ** 6, 10 ** 7) if u < .8 else g.randint(10 ** 8, 10 ** 9)

    def vals(self, names, rel=False):
        return {n: self.value(n, rel) for n in names}

    def make(self, kind, bands):
        bands = list(bands)
        kw = dict(filternames=bands) if kind not in "SE" or self.rng.random() < .5 else dict(filters=bands)
        if kind not in "SE":
            kw["splinedata"] = self.spl
            kw["free_sersic"] = kind in "GC"
        return CLS[kind](**kw)

    def vector(self, vals, names):
        return np.array([vals[n] / unit(n) for n in names])

    def ev(self, fn, **ev):
        """Run fn; it returns observations to be added."""
        r, exc = attempt(fn)
        if exc:
            ev["exc"] = exc
        elif r:
            ev.update(r)
        self.evs.append(ev)
        return not exc

    # ---- operations ----
    def new(self, k, kinds=None):
        g = self.rng
        src = []
        for i in range(len(kinds) if kinds else g.randint(1, 5)):
            kind, bands = kinds[i] if kinds else (g.choice(["G", "G", "G", "G2", "S", "E", "C", "C", "C2"]), g.sample(self.names, g.randint(1, 4)))
            src.append(dict(kind=kind, bands=bands, vals=self.vals(bands + COLS[kind])))

        def go():
            ss = []
            for s in src:
                o = self.make(s["kind"], s["bands"])
                o.set_params(self.vector(s["vals"], s["bands"] + COLS[s["kind"]]))
                ss.append(o)
            if g.random() < .3:
                sc = Scene()
                sc.sources.extend(ss)
                sc.identify_sources()
            else:
                sc = Scene(ss)
            self.sc[k] = sc
            return dict(ids=[int(s.id) for s in sc.sources])
        self.ref = [0 if r == k else r for r in self.ref]
        self.meta[k] = [[s["kind"], s["bands"], False] for s in src]
        self.gran[k] = 32
        self.span[k] = 0
        return self.ev(go, op="new", k=k, src=src)

    def fromcat(self, k, rows=None, kind=None, bands=None):
        g = self.rng
        extra = []
        if rows is None:
            kind = g.choice(["G", "G", "G", "G2", "S", "E", "C", "C2"])
            bands = g.sample(self.names, g.randint(1, 4))
            if kind in ("G2", "C2") and g.random() < .7:
                extra = ["sersic", "rhalf"]
            more = [n for n in self.names + ["q", "sersic", "rhalf", "ep", "ec", "pa"] if n not in bands + COLS[kind] + extra and g.random() < .4]
            rows = [self.vals(bands + COLS[kind] + extra + more) for _ in range(g.randint(1, 5))]
        cols = list(rows[0])
        g.shuffle(cols)
        ids = [n for n in ("id", "source_index") if n not in cols]
        dt = np.dtype([(n, "<i8") for n in ids] + [(n, "<f8") for n in cols])
        cat = np.zeros(len(rows), dtype=dt)
        for i, r in enumerate(rows):
            for n in ids:
                cat[i][n] = 77 + 3 * i
            for n in cols:
                cat[i][n] = r[n] / unit(n) if n != "id" else r[n]
        how = g.choice(["init", "from", "patch"]) if kind == "G" else g.choice(["init", "from"])

        def go():
            kw = dict(filternames=list(bands), source_type=CLS[kind], extra_parameters=list(extra))
            if kind not in "SE":
                kw.update(splinedata=self.spl, free_sersic=kind in "GC")
            if how == "patch":
                self.pat[0].bandlist = list(bands)
                sc = self.pat[0].set_scene(cat)
            elif how == "init":
                sc = Scene(catalog=cat, **kw)
            else:
                sc = Scene()
                sc.from_catalog(cat, **kw)
            for n in cat.dtype.names:
                cat[n] = -1
            self.sc[k] = sc
            return dict(ids=[int(s.id) for s in sc.sources])
        self.ref = [0 if r == k else r for r in self.ref]
        self.meta[k] = [[kind, list(bands), False] for _ in rows]
        self.span[k] = max([0] + [abs(r["ra"]) for r in rows if r["ra"] < 0])
        self.gran[k] = min([32] + [r[n] & -r[n] for r in rows for n in ("ra", "dec") if r[n]])
        return self.ev(go, op="fromcat", k=k, rows=rows, kind=kind, bands=bands, extra=extra)

    def fresh(self, key, names):
        """New values, or those given last time but for a small step in some of them."""
        g = self.rng
        key = key + (sum(e["op"] in ("zero", "unzero", "fromcat", "new", "reload") for e in self.evs),)
        old = self.given.get(key)
        v = [self.value(n, key[2]) for n in names]
        if old and old[0] == names and g.random() < .5:
            for j in range(len(v)):
                step = 0 if g.random() < .6 else g.choice([-2, -1, 1, 2]) * (256 if names[j] in SHAPES else 1)
                if names[j] in ("ra", "dec"):
                    step = step // 8
                elif names[j] == "rhalf" and any(abs(abs(old[1][j] + step - r) - abs(old[1][j] + step - t)) <= 64 for r in self.radii for t in self.radii if r != t):
                    step = 0
                elif names[j] == "q" and not 256 <= old[1][j] + step <= Q:
                    step = 0
                elif names[j] in ("ep", "ec") and abs(old[1][j] + step) < 256 * 600:
                    step = 0
                v[j] = old[1][j] + step
        self.given[key] = (names, list(v))
        return v

    def set(self, k):
        names = [n for kind, bands, fx_ in self.meta[k] if not fx_ for n in bands + COLS[kind]]
        v = self.fresh((k, -1, k in self.ref), names)
        th = np.array([a / unit(n) for a, n in zip(v, names)])

        def go():
            self.sc[k].set_all_source_params(th if self.rng.random() < .7 else th.tolist())
            th[:] = -7
        return self.ev(go, op="set", k=k, theta=v)

    def setone(self, k):
        i = self.rng.randrange(len(self.meta[k]))
        kind, bands, _ = self.meta[k][i]
        b = self.rng.choice(["", ""] + bands)
        names = (bands if b == "" else [b]) + COLS[kind]
        v = self.fresh((k, i, k in self.ref), names)
        th = np.array([a / unit(n) for a, n in zip(v, names)])

        def go():
            self.sc[k].sources[i].set_params(th, filtername=b or None) if b else self.sc[k].sources[i].set_params(th)
            th[:] = -7
        return self.ev(go, op="setone", k=k, i=i + 1, band=b, vec=v)

    def fix(self, k, i=None, val=None):
        i = self.rng.randrange(len(self.meta[k])) if i is None else i
        val = (not self.meta[k][i][2]) if val is None else val
        self.meta[k][i][2] = val

        def go():
            self.sc[k].sources[i].fixed = val
        return self.ev(go, op="fix", k=k, i=i + 1, val=val)

    def toks(self, names, v):
        v = np.asarray(v, dtype=float)
        return [tok(a, unit(n)) for a, n in zip(v, names)] if v.shape == (len(names),) else [BAD] * (v.size + 1)

    def get(self, k, active=None):
        active = self.rng.random() < .7 if active is None else active
        use = [m for m in self.meta[k] if not (active and m[2])]
        if not use:
            return True
        names = [n for kind, bands, _ in use for n in bands + COLS[kind]]

        def go():
            v = self.sc[k].get_all_source_params(active=active) if not active or self.rng.random() < .5 else self.sc[k].get_all_source_params()
            self.keep(v)
            return dict(out=self.toks(names, v))
        return self.ev(go, op="get", k=k, active=active)

    def getone(self, k):
        i = self.rng.randrange(len(self.meta[k]))
        kind, bands, _ = self.meta[k][i]
        b = self.rng.choice([""] + bands)

        def go():
            s = self.sc[k].sources[i]
            v = s.get_param_vector(b) if b else s.get_param_vector()
            self.keep(v)
            return dict(out=self.toks((bands if b == "" else [b]) + COLS[kind], v))
        return self.ev(go, op="getone", k=k, i=i + 1, band=b)

    def pnames(self, k):
        return self.ev(lambda: dict(out=[str(n) for n in self.sc[k].parameter_names]), op="names", k=k)

    def index(self, k):
        act = [i for i, m in enumerate(self.meta[k]) if not m[2]]
        if not act:
            return True
        i = self.rng.choice(act)
        b = self.rng.choice([""] + self.meta[k][i][1])
        return self.ev(lambda: dict(out=[int(a) + 1 for a in (self.sc[k].param_indices(i, b) if b else self.sc[k].param_indices(i))]),
                       op="index", k=k, i=i + 1, band=b)

    def prop(self, k):
        active = self.rng.random() < .8
        use = [i for i, m in enumerate(self.meta[k]) if m[2] != active]
        if not use or any(self.meta[k][i][0] not in "GC" for i in use):
            return self.amp(k)

        def go():
            sc = self.sc[k]
            p = sc.get_proposal(active=active) if not active or self.rng.random() < .5 else sc.get_proposal()
            self.keep(p)
            out = []
            nr = len(self.radii)
            for j, row in enumerate(p):
                i = use[j] if j < len(use) else use[0]
                s = sc.sources[i]
                o = dict(flux=[near(v, FQ) for v in row["fluxes"][:len(self.meta[k][i][1])]], ra=near(row["ra"], Q), dec=near(row["dec"], Q),
                         q=near(row["q"], Q), pa=near(row["pa"], Q), n=near(row["nsersic"], Q), rh=near(row["rh"], Q),
                         amp=fx(row["mixture_amplitudes"][:nr]), dn=fx(row["damplitude_dnsersic"][:nr]), dr=fx(row["damplitude_drh"][:nr]), wq=0, wpa=0)
                if self.meta[k][i][0] == "C":
                    e = math.hypot(s.ep, s.ec)
                    o["wq"], o["wpa"] = near(math.exp(-e / 2), Q), near(math.atan2(s.ec, s.ep) / 2, Q)
                out.append(o)
            return dict(out=out)
        return self.ev(go, op="prop", k=k, active=active)

    def amp(self, k):
        def go():
            return dict(out=[dict(amp=fx(s.amplitudes), dn=fx(s.damplitude_dsersic), dr=fx(s.damplitude_drh)) for s in self.sc[k].sources])
        return self.ev(go, op="amp", k=k)

    def catalog(self, k):
        extra = [n for n in ("sersic", "rhalf") if self.rng.random() < .3 and not any(n in COLS[m[0]] for m in self.meta[k])]

        def go():
            c = self.sc[k].to_catalog(extra_cols=list(extra)) if extra or self.rng.random() < .5 else self.sc[k].to_catalog()
            rows = []
            for r in c:
                r = np.atleast_1d(r)[0]
                self.keep(r)
                rows.append({n: tok(r[n], unit(n)) if n != "id" else tok(r[n], 1) for n in r.dtype.names})
            self.last = (k, rows)
            return dict(rows=rows)
        return self.ev(go, op="cat", k=k, extra=extra)

    def reload(self, k, l):
        """The catalogue of scene k becomes scene l."""
        kinds = {m[0] for m in self.meta[k]}
        common = [b for b in self.meta[k][0][1] if all(b in m[1] for m in self.meta[k])]
        if len(kinds) > 1 or not common:
            return True
        if not self.catalog(k):
            return False
        kind = kinds.pop()
        cc = self.evs[-1]["rows"]
        keep = set(common) | set(COLS[kind])
        rows = [{n: v for n, v in r.items() if n in keep or n == "id"} for r in cc]
        if any(not keep <= set(r) for r in rows):
            return True
        for r in rows:
            r.pop("id")
        bands = self.rng.sample(common, self.rng.randint(1, len(common)))
        return self.fromcat(l, rows, kind, bands)

    def zero(self, j, k):
        if self.ref[j] or k in self.ref:
            return True
        sky = [] if self.rng.random() < .6 else [self.value("ra"), self.value("dec")]
        if sky and self.span.get(k, 0) + max(map(abs, sky)) > 2 ** 31 - 10 ** 6:
            return True                      # beyond the integers of the specification
        if not sky:
            if self.gran[k] < 2:
                return True
            self.gran[k] //= 2
        self.ref[j] = k

        def go():
            if sky:
                z = self.pat[j].zerocoords(self.sc[k], sky_zero=self.rng.choice([tuple, np.array])([sky[0] / Q, sky[1] / Q]))
            else:
                z = self.pat[j].zerocoords(self.sc[k])
            if not np.array_equal(z, self.pat[j].patch_reference_coordinates):
                return dict(out=[BAD, BAD])
            return dict(out=[tok(v, Q) for v in z])
        return self.ev(go, op="zero", j=j + 1, k=k, sky=sky)

    def unzero(self, j):
        k = self.ref[j]
        if not k:
            return True
        self.ref[j] = 0

        def go():
            self.pat[j].unzerocoords(self.sc[k])
        return self.ev(go, op="unzero", j=j + 1, k=k)

    def shear(self, k):
        g = self.rng

        def go():
            s = self.make("C", ["x"])
            q, pa = g.uniform(.35, .97), g.uniform(-1.55, 1.55)
            s.ep, s.ec = s.etas_from_qphi(q, pa)
            got = [s.q, s.pa]
            jac = np.array(s.ds_deta)
            h, fd, e0 = 1e-5, [], (s.ep, s.ec)
            for a in range(2):
                v = []
                for m in (-1, 1):
                    s.ep, s.ec = e0[0] + m * h * (a == 0), e0[1] + m * h * (a == 1)
                    v.append((s.q, s.pa))
                fd.append([(y - x + (math.pi / 2 if False else 0)) / (2 * h) for x, y in zip(*v)])
            return dict(want=fx([q, pa]), got=fx(got), jac=[fx(r / 16) for r in jac], fd=[fx(np.array(r) / 16) for r in fd])
        return self.ev(go, op="shear", k=k)

    def keep(self, v):
        self.kept.append((v, copy.deepcopy(np.array(v))))

    def again(self, k):
        def go():
            same = [bool(np.array_equal(np.array(v).tobytes(), w.tobytes())) for v, w in self.kept]
            return dict(a=[int(x) for x in same], b=[1] * len(same))
        return self.ev(go, op="again", k=k)

    def look(self, k):
        return self.get(k) and self.get(k, False) and self.prop(k) and self.index(k)


def run_case(case):
    rng = random.Random(case["rseed"])
    work = tempfile.mkdtemp(prefix="vvec_")
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            s = S(rng, work)
            if "ops" in case:
                a, b = s.names[:2]
                ok = s.new(1, [("G", [a, b]), ("S", [a]), ("G", [b, a])]) and s.new(2, [("G", [b, a])])
                for op in case["ops"]:
                    if not ok:
                        break
                    k = op["k"]
                    if op["op"] == "set":
                        ok = s.set(k)
                    elif op["op"] == "fix":
                        ok = s.fix(k, op["i"] - 1, op["val"])
                    elif op["op"] == "zero":
                        ok = s.zero(op["j"] - 1, k)
                    elif op["op"] == "unzero":
                        ok = s.unzero(op["j"] - 1)
                    elif op["op"] == "reload":
                        ok = s.reload(k, op["l"])
                    ok = ok and s.look(1) and s.look(2)
                if ok:
                    s.again(1)
            else:
                ok = True
                for k in (1, 2, 3):
                    ok = ok and (s.new(k) if rng.random() < .5 else s.fromcat(k))
                n = 0
                while ok and n < case["steps"]:
                    n += 1
                    k = rng.randint(1, 3)
                    u = rng.choice(["new", "fromcat", "reload", "set", "set", "set", "setone", "fix", "get", "get", "getone", "names", "index", "prop", "prop",
                                    "amp", "cat", "zero", "zero", "unzero", "shear", "again"])
                    if u == "reload":
                        ok = s.reload(k, rng.choice([x for x in (1, 2, 3) if x != k]))
                    elif u == "zero":
                        ok = s.zero(rng.randrange(2), k)
                    elif u == "unzero":
                        ok = s.unzero(rng.randrange(2))
                    else:
                        ok = dict(new=s.new, fromcat=s.fromcat, set=s.set, setone=s.setone, fix=s.fix, get=s.get, getone=s.getone, names=s.pnames, index=s.index,
                                  prop=s.prop, amp=s.amp, cat=s.catalog, shear=s.shear, again=s.again)[u](k)
                for k in (1, 2, 3):
                    ok = ok and s.look(k)
                if ok:
                    s.again(1)
        return dict(cfg=s.cfg, ev=s.evs)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(c):
    rng = c.rng
    hist = c.model("MCSceneVec", dict(Depth=c.q(4, 5)), invariants=["SameCells", "SkyPreserved", "ReadBack", "IndexReads"], properties=["OthersKept"], timeout=900)
    c.extra["model_behaviours"] = len(hist)
    cap = c.q(1200, 8000)
    if len(hist) > cap:
        hist = rng.sample(hist, cap)
    cases = [dict(ops=h, rseed=rng.randint(0, 2 ** 31)) for h in hist]
    tr = c.execute(run_case, cases)
    c.validate("SceneVecTrace", tr, cases, label="histories of the model", chunk=200)
    cases = [dict(steps=rng.choice([10, 25, 50]), rseed=rng.randint(0, 2 ** 31)) for _ in range(c.q(500, 6000))]
    tr = c.execute(run_case, cases)
    c.validate("SceneVecTrace", tr, cases, label="random histories", chunk=150)
    c.assumptions += ["a patch re-centres one scene at a time (restored before another is centred on it)",
                      "sersic indices and radii of sources lie inside the tabulated mixture grid, or below the smallest index",
                      "source objects are not shared between scenes"]
