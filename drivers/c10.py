"""C10: chains, catalogues and results on disk."""
import hashlib, json, math, os, random, shutil, tempfile
from argparse import Namespace

import numpy as np

from vlib.core import attempt
from drivers.images import NAMES, SHAPES
from forcepho.fitting import Result, run_lmc, run_opt
from forcepho.model import Posterior, BoundedTransform, Transform
from forcepho.postprocess import Samples
from forcepho.region import CircularRegion
from forcepho.sources import Galaxy
from forcepho.superscene import sourcecat_dtype
from forcepho.utils import make_chaincat, get_sample_cat, extract_block_diag
from forcepho.utils.io import write_to_disk

BAD = 1999999999
P20 = 2. ** 20
UNIT = dict(ra=P20, dec=P20)


def tk(v, u=1.):
    v = float(v) * u
    return int(v) if math.isfinite(v) and abs(v) < 1.9e9 and v == int(v) else BAD


def digest(v):
    """Something equal exactly when the value is the same array, number or text."""
    if isinstance(v, np.ndarray):
        if v.dtype.names:
            return "table " + " ".join(f"{n}:{digest(v[n])}" for n in v.dtype.names)
        a = v.astype("S") if v.dtype.kind in "SU" else v.astype(float) if v.dtype.kind in "fiub" else v
        return f"{v.dtype.kind if v.dtype.kind not in 'SU' else 'S'}{v.shape} {hashlib.md5(np.ascontiguousarray(a).tobytes()).hexdigest()}"
    if isinstance(v, (bool, int, float, np.bool_, np.integer, np.floating)):
        return f"number {float(v)!r}"
    if isinstance(v, (str, bytes)):
        return "text " + hashlib.md5(v.encode() if isinstance(v, str) else v).hexdigest()
    return ""


def fields(r):
    return [[k, digest(v)] for k, v in sorted(vars(r).items()) if digest(v)]


class Case:
    def __init__(self, rng, ns, nb, ni, work):
        self.rng, self.work = rng, work
        self.ns, self.nb, self.ni = ns, nb, ni
        self.bands = rng.sample(NAMES, nb)
        self.shapes = list(Galaxy.SHAPE_COLS)
        self.names = self.bands + self.shapes
        n = len(self.names)
        self.tokens = np.array(rng.sample(range(1, rng.choice([400000, 1400000000])), ns * n * ni) if ns * n * ni < 100000 else range(ns * n * ni)).reshape(ni, ns * n)
        units = np.array([UNIT.get(c, 1.) for c in self.names] * ns)
        self.chain = self.tokens / units
        if rng.random() < .3:
            self.chain = np.asfortranarray(self.chain)
        self.ref = [rng.randint(1, 350), rng.randint(-80, 80)]
        self.index = rng.sample(range(0, 500), ns)
        extra = [b for b in NAMES if b not in self.bands][:rng.randint(0, 2)]
        order = list(self.bands) + extra
        rng.shuffle(order)
        self.active = np.zeros(ns, dtype=sourcecat_dtype(bands=order))
        for c in self.active.dtype.names:
            self.active[c] = [rng.randint(1, 30) if self.active.dtype[c].kind != "b" else rng.random() < .5 for _ in range(ns)]
        self.active["source_index"] = self.index
        self.cols = list(self.active.dtype.names)
        m = rng.randint(500, 900)
        self.cov = np.array([rng.randint(-m, m) for _ in range((ns * n) ** 2)], dtype=float).reshape(ns * n, ns * n)
        self.diag = rng.random() < .3
        if self.diag:
            self.cov = np.diag(np.abs(np.diag(self.cov)) + 1)
        self.lnp = [rng.choice([rng.randint(-50, 50), -7]) for _ in range(ni)]
        nt = rng.randint(0, ni)
        self.tune = [1] * nt + [0] * (ni - nt)
        self.region = CircularRegion(rng.randint(1, 300) / 8., rng.randint(-300, 300) / 8., rng.randint(1, 90) / 64.)

    def cfg(self):
        return dict(names=self.names, ref=[int(v * P20) for v in self.ref], index=self.index, chain=self.tokens.tolist(), cols=self.cols,
                    active=self.rows(self.active), cov=self.cov.astype(int).tolist(), lnp=self.lnp, tune=self.tune)

    def rows(self, cat):
        if list(cat.dtype.names) != self.cols:
            return []
        return [[tk(cat[c][s], UNIT.get(c, 1.)) for c in self.cols] for s in range(len(cat))]

    def table(self, cc):
        if not set(self.names) <= set(cc.dtype.names):
            return dict(tindex=[], table=[])
        return dict(tindex=[int(v) for v in cc["source_index"]],
                    table=[[[tk(v, UNIT.get(c, 1.)) for v in np.atleast_1d(cc[s][c])] for c in self.names] for s in range(len(cc))])

    def model(self):
        patch = Namespace(bandlist=list(self.bands), patch_reference_coordinates=np.array(self.ref, dtype=float), npix=77,
                          epaths=[f"{b}/e{k}" for b in self.bands for k in range(2)])
        return Namespace(patch=patch, scene=Namespace(sources=[Galaxy() if False else Namespace(SHAPE_COLS=self.shapes)]), ncall=self.rng.randint(1, 99))

    def step(self):
        pot = Namespace(_var=np.diag(self.cov).copy()) if self.diag else Namespace(_cov=self.cov.copy())
        return Namespace(potential=pot, stats_dtypes=[dict(tune=bool, model_logp=float, step_size=float)])

    def stats(self):
        return [dict(tune=bool(t), model_logp=float(v), step_size=.5 * k, unused=3) for k, (t, v) in enumerate(zip(self.tune, self.lnp))]


def run_case(case):
    rng = random.Random(case["rseed"])
    work = tempfile.mkdtemp(prefix="vchain_")
    cwd = os.getcwd()
    try:
        os.chdir(work)
        C = Case(rng, case["ns"], case["nb"], case["ni"], work)
        R = Result()
        R.chain = C.chain.copy(order="K")
        R.ndim = C.chain.shape[1]
        R.starting_position = C.chain[0].copy()
        R.wall_time = rng.randint(1, 1000) / 8.
        if rng.random() < .5:
            R.message = rng.choice(["converged", "", "Desired error not necessarily achieved due to precision loss."])
        evs = []
        hasstats = False
        filename = None
        ops = list(case["ops"])
        if any(o["op"] == "rand" for o in ops):
            ops = random_ops(rng, C.ni)
        blocks = lambda b: [] if b is None else [[[tk(v) for v in r] for r in m] for m in b]
        for op in ops:
            o = op["op"]
            ev = dict(op)
            if o == "fill":
                hasstats = op["step"] and any(x["op"] == "best" for x in ops) or (op["step"] and rng.random() < .7) or any(x["op"] == "best" for x in ops)
                st = op["step"] or hasstats
                ev["step"], ev["stats"] = bool(st), bool(hasstats)
                act = C.active.copy()
                fixed = rng.choice([None, C.active[:0].copy(), C.active[:1].copy()])
                kw = dict(patchID=rng.choice([0, 7, 123]))
                if rng.random() < .5:
                    b = np.zeros(C.ns, dtype=[("source_index", "i4")] + [(c, "f8", (2,)) for c in C.names])
                    b[C.names[0]] = rng.random()
                    kw["bounds"] = b
                if rng.random() < .3:
                    kw["big"] = C.active[:1].copy()
                if st:
                    kw["step"] = C.step()
                if hasstats:
                    kw["stats"] = C.stats()
                r, exc = attempt(R.fill, C.region, act, fixed, C.model(), **kw)
                if exc:
                    ev["exc"] = exc
                else:
                    final, bl = r
                    ev.update(C.table(R.chaincat), final=C.rows(final), blocks=blocks(bl),
                              kept=bool(np.array_equal(R.chain, C.chain) and act.tobytes() == C.active.tobytes() and R.active.tobytes() == C.active.tobytes()))
                    if hasstats:
                        ev["ntune"], ev["nsample"] = int(R.n_tune), int(R.n_sample)
                    if rng.random() < .5:
                        R.precisions = np.array([np.eye(C.ns) * (k + 2) for k in range(C.nb)])
            elif o == "sample":
                if rng.random() < .5:
                    r, exc = attempt(R.get_sample_cat, op["it"])
                else:
                    r, exc = attempt(get_sample_cat, R.chaincat, op["it"], C.active.copy())
                if exc:
                    ev["exc"] = exc
                else:
                    ev["out"] = C.rows(r)
            elif o == "best":
                r, exc = attempt(R.get_map, structured=op["structured"])
                if exc:
                    ev["exc"] = exc
                elif op["structured"]:
                    ev["out"] = C.rows(r)
                else:
                    u = np.array([UNIT.get(c, 1.) for c in C.names] * C.ns)
                    ev["out"] = [[tk(v) for v in row * u] for row in np.asarray(r)]
            elif o == "save":
                how = rng.choice(["bare", "abs", "new", "disk"])
                n = rng.randint(1, 99)
                if how == "disk":
                    root = os.path.join(rng.choice(["", "out/"]), f"patch{n}")
                    cfgn = Namespace(write_residuals=0, bands=list(C.bands), note="x" * rng.choice([0, 100]))
                    r, exc = attempt(write_to_disk, R, root, None, cfgn)
                    filename, r = root + "_samples.h5", []
                    if not exc and json.loads(getattr(R, "config", "null")) != vars(cfgn):
                        exc = "an unfaithful configuration"
                else:
                    filename = dict(bare=f"r{n}.h5", abs=os.path.join(work, f"r{n}.h5"), new=f"a/b/r{n}.h5")[how]
                    r, exc = attempt(R.dump_to_h5, filename)
                before = fields(R)
                if exc:
                    ev["exc"] = exc
                else:
                    ev["skipped"] = sorted(k for k, _ in before if any(f"could not save {k} " in m for m in r or []))
            elif o == "load":
                ev["before"] = before
                R2, exc = attempt((Samples if rng.random() < .4 else Result), filename)
                if exc:
                    ev["exc"] = exc
                else:
                    g, exc = attempt(lambda: dict(after=fields(R2), region=[tk(v, 64) for v in (R2.region.ra, R2.region.dec, R2.region.radius)],
                                                  bands=[str(b) for b in R2.bands], shapes=[str(b) for b in R2.shape_cols], **C.table(R2.chaincat)))
                    if exc:
                        ev["exc"] = exc
                    else:
                        ev.update(g, wantregion=[tk(v, 64) for v in (C.region.ra, C.region.dec, C.region.radius)])
                        R = R2
            elif o == "blocks":
                r, exc = attempt(extract_block_diag, C.cov if rng.random() < .7 else np.asfortranarray(C.cov), len(C.names))
                ev.update(dict(exc=exc) if exc else dict(out=blocks(r)))
            elif o == "table":
                bs, sh = C.bands, C.shapes
                if rng.random() < .4:
                    bs, sh = np.array(bs, dtype="S"), np.array(sh, dtype="S")
                r, exc = attempt(make_chaincat, C.chain, bs, C.active, rng.choice([list, np.array, tuple])(C.ref), **(dict(shapes=sh) if rng.random() < .6 else {}))
                ev.update(dict(exc=exc) if exc else C.table(r))
            evs.append(ev)
            if "exc" in ev:
                break
        return dict(cfg=C.cfg(), ev=evs)
    finally:
        os.chdir(cwd)
        shutil.rmtree(work, ignore_errors=True)


def random_ops(rng, ni):
    ops = []
    if rng.random() < .5:
        ops.append(dict(op="table"))
    if rng.random() < .5:
        ops.append(dict(op="blocks"))
    ops.append(dict(op="fill", step=rng.random() < .7))
    saved = False
    for _ in range(rng.randint(1, 8)):
        u = rng.random()
        if u < .45:
            ops.append(dict(op="sample", it=rng.randint(-ni, ni - 1)))
        elif u < .6:
            ops.append(dict(op="best", structured=rng.random() < .5))
        elif u < .8 or not saved:
            ops.append(dict(op="save"))
            saved = True
        else:
            ops.append(dict(op="load"))
    return ops


class Recorder(Posterior):
    """A correlated Gaussian in scene parameters."""

    def __init__(self, mu, **kw):
        super().__init__(**kw)
        self.mu = np.array(mu)
        self.seen, self.lnps = [], []
        self._z = -99

    def evaluate(self, z):
        q = self.make_transform(z)
        d = q - self.mu
        self._lnp = -.5 * float(np.sum(d ** 2)) - .2 * float(np.sum(d[1:] * d[:-1]))
        g = -d
        g[1:] -= .2 * d[:-1]
        g[:-1] -= .2 * d[1:]
        self._lnp_grad = g * self._jacobian
        if self.sampling:
            self._lnp += self._lndetjac
            self._lnp_grad = self._lnp_grad + self._lndetjac_grad
        self.ncall += 1
        self._q = q
        self._set_cache(z)
        self.seen.append(np.array(q))
        self.lnps.append(float(self._lnp))


def run_run(case):
    rng = random.Random(case["rseed"])
    n = rng.randint(1, 6)
    lo = np.array([rng.uniform(-3, 0) for _ in range(n)])
    hi = lo + np.array([rng.uniform(1, 6) for _ in range(n)])
    q = lo + (hi - lo) * np.array([rng.uniform(.1, .9) for _ in range(n)])
    bounded = rng.random() < .8
    m = Recorder(np.array([rng.uniform(-1, 2) for _ in range(n)]), **(dict(lower=lo, upper=hi) if bounded else dict(transform=Transform(n))))
    q0 = q.copy()
    ev = dict(op="run", lnp=[])
    if case["how"] == "opt":
        m.sampling = False
        r, exc = attempt(run_opt, m, q, jac=rng.random() < .7)
        nrow = 1
    else:
        draws, tune = rng.randint(2, 12), rng.randint(2, 10)
        disc = rng.random() < .5
        r, exc = attempt(run_lmc, m, q, draws, warmup=[tune], full=rng.random() < .5, z_cov=rng.choice([None, np.eye(n)]),
                         discard_tuned_samples=disc, max_treedepth=4, progressbar=False)
        nrow = draws if disc else draws + tune
    if exc:
        return dict(cfg={}, ev=[dict(ev, exc=exc)])
    res = r[0]
    ch = np.atleast_2d(res.chain)

    def number(row):
        for k, s in enumerate(m.seen):
            if np.allclose(s, row, rtol=1e-12, atol=1e-14):
                return k + 1
        return 0
    ev["rows"] = [number(x) for x in ch] if ch.shape[1] == n else []
    ev["n"] = nrow
    if case["how"] == "opt":
        f0, f1 = -m.lnps[0], float(res.fun)
        ev["better"] = 1 if f1 <= f0 + 1e-12 else -1
    else:
        ev["better"] = 0
        lp = [s["model_logp"] for s in r[2]]
        # the probability recorded with a row belongs to that row
        ev["lnp"] = [k if k and abs(m.lnps[k - 1] - v) < 1e-9 else 0 for k, v in zip(ev["rows"], lp[-len(ev["rows"]):])]
    ev["inside"] = bool(not bounded or np.all((ch >= lo) & (ch <= hi)))
    ev["start"] = bool(np.array_equal(res.starting_position, q0) and np.array_equal(q, q0) and res.ndim == n)
    return dict(cfg=dict(names=[]), ev=[ev])


def run(c):
    rng = c.rng
    hist = c.model("MCChain", dict(MaxS=2, MaxB=2, MaxI=2, Depth=c.q(4, 5)), invariants=["Injective", "Onto", "Faithful", "KeepsOther"])
    cap = c.q(1200, 15000)
    if len(hist) > cap:
        hist = rng.sample(hist, cap)
    seed = lambda: rng.randint(0, 2 ** 31)
    cases = [dict(h, rseed=seed()) for h in hist]
    tr = c.execute(run_case, cases)
    c.validate("ChainTrace", tr, cases, label="model histories replayed", chunk=600)
    cases = [dict(ns=rng.choice([1, 2, 3, 5]), nb=rng.randint(1, 4), ni=rng.choice([1, 2, 3, 7, 15]), ops=[dict(op="rand")], rseed=seed()) for _ in range(c.q(350, 4000))]
    tr = c.execute(run_case, cases)
    c.validate("ChainTrace", tr, cases, label="random histories", chunk=300)
    cases = [dict(how=rng.choice(["opt", "lmc", "lmc"]), rseed=seed()) for _ in range(c.q(60, 600))]
    tr = c.execute(run_run, cases)
    c.validate("ChainTrace", tr, cases, label="sampler and optimiser runs", chunk=300)
    c.assumptions += ["fields that are None or not arrays, numbers or text are not stored", "text fields are shorter than HDF5's attribute limit (64 kB)"]
