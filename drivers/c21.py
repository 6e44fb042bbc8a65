"""C21: optimisation and sampling tasks over a run."""
import hashlib, logging, math, random, shutil, tempfile
from argparse import Namespace

import numpy as np
from scipy.linalg import block_diag

from vlib.core import attempt
from drivers.images import World, SHAPES, Q, fx, pow2
from forcepho import tasks
from forcepho.fitting import optimize_fluxes
from forcepho.priors import ExpBeta
from forcepho.superscene import SuperScene, LinkedSuperScene, sourcecat_dtype

LOG = logging.getLogger("verif")
LOG.addHandler(logging.NullHandler())
LOG.propagate = False


def dig(*a):
    return hashlib.md5(b"".join(np.ascontiguousarray(x, dtype=float).tobytes() for x in a)).hexdigest()[:12]


class Run:
    def __init__(self, case):
        rng = self.rng = random.Random(case["rseed"])
        np.random.seed(rng.randint(0, 2 ** 31))
        self.work = tempfile.mkdtemp(prefix="vfit_")
        w = self.w = World(rng, self.work, case["nb"], case["nexp"], case["n"], maxpix=case["maxpix"], scale=case["scale"], wscale=case["wscale"])
        self.n = case["n"]
        for e in w.exps:                              # sources are distinguishable: every pixel counts
            e["w"] = np.where(e["w"] == 0, .3 * w.W, e["w"])
            e["d"] = np.where(np.abs(e["d"]) > 10 * w.S, 0., e["d"])
        idx = list(range(len(w.exps)))
        rng.shuffle(idx)
        if rng.random() < .25 and case["nb"] > 1:     # a band without exposures
            b = rng.randrange(case["nb"])
            idx = [k for k in idx if w.exps[k]["b"] != b] or idx
        self.idx = idx
        self.present = sorted({w.exps[k]["b"] for k in idx})
        self.allbands = list(range(case["nb"]))
        cat = np.zeros(self.n, dtype=sourcecat_dtype(bands=w.bands))
        for i, a in enumerate(w.atoms):
            for c in SHAPES:
                cat[i][c] = a["row"][c]
            for b in w.bands:
                cat[i][b] = w.flux(i)
            cat[i]["id"], cat[i]["source_index"] = 100 + 7 * i, i
        cls = rng.choice([SuperScene, LinkedSuperScene])
        kw = dict(roi=cat["rhalf"] * .5) if cls is LinkedSuperScene else {}
        self.sc = cls(sourcecat=cat, bands=w.bands, statefile=self.work + "/scene.fits", maxactive_per_patch=self.n, maxradius=30.,
                      bounds_kwargs=dict(n_pix=1., sersic_range=(1.05, 4.95), rhalf_range=(.04, .39)), target_niter=100, **kw)
        self.sc.sourcecat["n_iter"] = [rng.choice([0, 5, 17, 40]) for _ in range(self.n)]
        k = case["nb"] + 6
        if hasattr(self.sc, "covariance_matrices"):
            for i in range(self.n):
                A = np.array([[rng.uniform(-.2, .2) for _ in range(k)] for _ in range(k)])
                self.sc.covariance_matrices[i] = A @ A.T + np.diag([rng.uniform(.3, 1) for _ in range(k)])
        self.p = w.patcher(idx)
        self.cols = w.bands + SHAPES
        self.task = None
        self.evs = []

    # -- projections
    def pd(self, cat):
        return [dig(*[r[c] for c in self.cols]) for r in cat]

    def bd(self, bnd, cols=None):
        return [dig(*[r[c] for c in cols or self.cols]) for r in bnd]

    def cd(self, cov, n):
        k = len(self.cols)
        return [dig(cov[i * k:(i + 1) * k, i * k:(i + 1) * k]) if cov is not None else "" for i in range(n)]

    def scd(self):
        return [dig(m) for m in self.sc.covariance_matrices] if hasattr(self.sc, "covariance_matrices") else [""] * self.n

    def od(self, cat, present):
        """Columns a task must not change."""
        names = [c for c in cat.dtype.names if c not in present + SHAPES]
        return [dig(*[r[c] for c in names]) for r in cat]

    def names(self, p):
        return [b if isinstance(b, str) else b.decode() for b in p.bandlist] + SHAPES

    def place(self, rows, bnd):
        """Where between its bounds each value lies: rows of {column: value}."""
        out = []
        for r, b in zip(rows, bnd):
            u = []
            for c, v in r:
                lo, hi = b[c]
                u.append(fx((v - lo) / (hi - lo)) if hi > lo else -1)
            out.append(u)
        return out

    def qrows(self, q, names, ref):
        q = np.asarray(q, dtype=float).reshape(-1, len(names))
        off = dict(ra=ref[0], dec=ref[1])
        return [[(c, v + off.get(c, 0.)) for c, v in zip(names, row)] for row in q]

    def crows(self, cat, names):
        return [[(c, float(r[c])) for c in names] for r in cat]

    def config(self, **kw):
        return Namespace(bands=self.w.bands, **kw)

    def fresh(self, region, active, fixed, bounds):
        p = self.w.patcher(self.idx)
        p.build_patch(region, None, allbands=self.w.bands)
        m, q = p.prepare_model(active=active.copy(), fixed=None if fixed is None else fixed.copy(),
                               bounds=None if bounds is None else bounds.copy())
        return p, m, np.array(q, dtype=float)

    def probes(self, model, region, active, fixed, bounds, nd):
        _, m, _ = self.fresh(region, active, fixed, bounds)
        out = []
        for _ in range(2):
            z = np.array([self.rng.gauss(0, 1) for _ in range(nd)])
            a, b = [(float(l), np.array(g, dtype=float)) for l, g in (x.lnprob_and_grad(z.copy()) for x in (model, m))]
            L, G = pow2(max(abs(a[0]), abs(b[0]), 1e-6)), pow2(max(np.abs(a[1]).max(), np.abs(b[1]).max(), 1e-6))
            out.append(dict(here=[fx(a[0], L)] + fx(a[1], G), fresh=[fx(b[0], L)] + fx(b[1], G)))
        return out

    # -- operations
    def checkout(self, h):
        ev = dict(op="checkout")
        self.sc.maxactive = h["n"]
        r, exc = attempt(self.sc.checkout_region, seed_index=h["seed"])
        if exc is None and r[1] is None:
            exc = "nothing checked out"
        if exc:
            ev["exc"] = exc
        else:
            region, active, fixed = r
            bounds, cov = self.sc.bounds_and_covs(active["source_index"])
            if fixed is not None and len(fixed) == 0:
                fixed = None
            ev.update(act=[int(i) + 1 for i in active["source_index"]], p=self.pd(active), b=self.bd(bounds), c=self.cd(cov, len(active)),
                      niter=[int(v) for v in active["n_iter"]])
            if len(self.present) < len(self.w.bands):
                cov = None                            # not supported: covariances with missing bands
            self.task = Namespace(region=region, active=active, fixed=fixed, bounds=bounds, cov=cov, covs=None, draws=0)
        self.evs.append(ev)

    def optimize(self, h):
        t, w = self.task, self.w
        cfg = self.config(add_barriers=int(h["bar"]), linear_optimize=int(h["lin"]), gtol=self.rng.choice([1e-5, 1e-3, 1e-2]),
                          flux_prior_expansion=self.rng.choice([2, 3, 5]))
        ev = dict(op="optimize", lin=h["lin"], bar=h["bar"], p0=self.pd(t.active), b0=self.bd(t.bounds), nsig=cfg.flux_prior_expansion)
        a0, b0 = t.active.copy(), t.bounds.copy()
        sp = Namespace()
        r, exc = attempt(tasks.optimize, self.p, (t.region, t.active, t.fixed, t.bounds), cfg, LOG, scratchpad=sp)
        if exc:
            self.evs.append(dict(ev, exc=exc))
            return
        (out, step, scires), (region, active, fixed, bounds), model = r
        names = self.names(self.p)
        ref = self.p.patch_reference_coordinates
        g = lambda k: getattr(sp, k, None)
        at = lambda q, b=b0: [] if q is None else self.place(self.qrows(q, names, ref), b)
        pres = names[:-6]
        ev.update(nb=len(pres), probe=self.probes(model, region, a0, fixed, b0, len(out.chain[-1])),
                  uini=at(g("q_initial")), ugiven=self.place(self.crows(a0, names), b0), ustart=at(g("q_start")), ubegin=at(out.starting_position),
                  uend=at(out.chain[-1]), upostop=at(g("q_postop")), ufinal=self.place(self.crows(active, names), b0),
                  p1=self.pd(active), b1=self.bd(bounds), other0=self.od(a0, pres), other1=self.od(active, pres),
                  bshape0=self.bd(b0, SHAPES), bshape1=self.bd(bounds, SHAPES),
                  babsent0=self.bd(b0, [b for b in w.bands if b not in pres] or SHAPES), babsent1=self.bd(bounds, [b for b in w.bands if b not in pres] or SHAPES))
        cp = lambda k, f: [] if g(k) is None else f(g(k))
        ev["sp"] = {"as": cp("active_start", self.pd), "bs": cp("bounds_start", self.bd), "bo": cp("bounds_postop", self.bd),
                    "al": cp("active_postlinear", self.pd), "bl": cp("bounds_postlinear", self.bd)}
        # the objective, on a fresh patch
        _, m, _ = self.fresh(region, a0, fixed, b0)
        m.sampling = False
        if h["bar"]:
            m._lnpriorfn = ExpBeta(m.transform.lower, m.transform.upper)
        val = []
        for q in (out.starting_position, out.chain[-1]):
            f, gr = m.nll(m.transform.inverse_transform(np.array(q, dtype=float)))
            val.append((float(f), np.array(gr, dtype=float)))
        F = pow2(max(abs(val[0][0]), abs(val[1][0]), 1e-6))
        G = pow2(max(np.abs(val[0][1]).max(), np.abs(val[1][1]).max(), 1e-6))
        ev.update(f0=fx(val[0][0], F), f1=fx(val[1][0], F), fun=fx(out.fun, F), lnp=fx(out.lnp, F), jac=fx(out.jac, G), g1=fx(val[1][1], G))
        ev["lgrad"], ev["lflux"], ev["l0"], ev["l1"], ev["ltol"], ev["ulin"] = [], [], 0, 0, 0, []
        if h["lin"]:
            post = active.copy()
            for b in pres:
                post[b] = [dict(r)[b] for r in self.qrows(out.chain[-1], names, ref)]
            pf, mf, qf = self.fresh(region, active, fixed, None)
            l1, gl = mf.lnprob_and_grad(qf)
            l1, gl = float(l1), np.array(gl, dtype=float).reshape(len(active), -1)
            _, m0, q0 = self.fresh(region, post, fixed, None)
            l0 = float(m0.lnprob(q0))
            L = pow2(max(abs(l0), abs(l1), sum(np.sum((w.exps[k]["d"] * w.exps[k]["w"]) ** 2) for k in self.idx)))
            ev["l0"], ev["l1"] = fx(l0, L), fx(l1, L)
            ev["ulin"] = at(g("q_postlinear"))
            # unit images are single precision differences divided by the flux
            dmax = max(np.abs(w.exps[k]["d"]).max() for k in self.idx)
            ev["ltol"] = int(min(64 * max(dmax / max(abs(post[b][i]) * np.abs(w.atoms[s]["im"][k]).max(), 1e-30)
                                          for k in self.idx for b in [w.bands[w.exps[k]["b"]]] for i, s in enumerate(active["source_index"])), 1e8))
            fl, P = optimize_fluxes(self.fresh(region, post, fixed, None)[0], post)[:2]
            ys, ws = pf.split_band("data"), pf.split_band("ierr")
            for j, b in enumerate(pres):
                nrm = math.sqrt(float(np.sum((np.asarray(ys[j], float) * np.asarray(ws[j], float)) ** 2)))
                sig = np.sqrt(np.diag(np.linalg.pinv(P[j])))
                if np.linalg.cond(P[j]) > 1e4:
                    ev["ill"] = True
                for i in range(len(active)):
                    ev["lgrad"].append(fx(gl[i, j] / (math.sqrt(P[j][i, i]) * nrm)))
                    v = [float(active[b][i]), float(bounds[b][i][0]), float(bounds[b][i][1])]
                    s = pow2(max(map(abs, v + [sig[i]])))
                    ev["lflux"].append(dict(f=fx(v[0], s), lo=fx(v[1], s), hi=fx(v[2], s), sig=fx(sig[i], s)))
        self.evs.append(ev)
        t.active, t.bounds, t.fixed, t.region = active, bounds, fixed, region
        t.result = None

    def sample(self, h):
        t, w = self.task, self.w
        rng = self.rng
        draws, tune = rng.randint(1, 4), rng.randint(1, 3) if h["tune"] else 0
        cfg = self.config(sampling_draws=draws, warmup=[tune], max_treedepth=rng.choice([2, 3]), progressbar=False)
        ev = dict(op="sample", draws=draws, tune=tune, p0=self.pd(t.active), b0=self.bd(t.bounds))
        a0, b0 = t.active.copy(), t.bounds.copy()
        cov = t.cov if rng.random() < .8 else None
        c0 = None if cov is None else cov.copy()
        sp = Namespace()
        r, exc = attempt(tasks.sample, self.p, (t.region, t.active, t.fixed, t.bounds), cfg, LOG, cov=cov, scratchpad=sp)
        if exc:
            self.evs.append(dict(ev, exc=exc))
            return
        (out, step, stats), (region, active, fixed, bounds), model = r
        names = self.names(self.p)
        ref = self.p.patch_reference_coordinates
        at = lambda q: [] if q is None else self.place(self.qrows(q, names, ref), b0)
        pres = names[:-6]
        r, exc = attempt(out.fill, region, active, fixed, model, bounds=bounds, patchID=len(self.evs), step=step, stats=stats)
        if exc:
            self.evs.append(dict(ev, exc=exc))
            return
        final, covs = r
        nd = len(out.chain[-1])
        probe = self.probes(model, region, a0, fixed, b0, nd)
        _, m, _ = self.fresh(region, a0, fixed, b0)
        lp = [float(v) for v in out.stats["model_logp"]]
        fr = [float(m.lnprob(m.transform.inverse_transform(np.array(q, dtype=float)))) for q in out.chain]
        L = pow2(max(map(abs, lp + fr + [1e-6])))
        C = pow2(max(1., 1. if c0 is None else np.abs(c0).max()))
        cm = np.asarray(step.potential._cov, dtype=float)
        k = len(names)
        newc = k == len(self.cols)
        ev.update(probe=probe, uini=at(getattr(sp, "q_sampling", None)), ustart=at(out.starting_position), ugiven=self.place(self.crows(a0, names), b0),
                  rows=len(out.chain), ntune=int(out.n_tune), nsample=int(out.n_sample),
                  chain=[dict(u=at(q), logp=fx(a, L), fresh=fx(b, L)) for q, a, b in zip(out.chain, lp, fr)],
                  metric=fx(cm.reshape(-1), C), given=fx((np.eye(nd) if c0 is None else c0).reshape(-1), C), weight=int(round(step.potential._foreground_cov.n_samples)),
                  ufinal=self.place(self.crows(final, names), b0), p1=self.pd(final), b1=self.bd(bounds), other0=self.od(a0, pres), other1=self.od(final, pres),
                  blocks=[dig(b) for b in covs], diag=[dig(cm[i * k:(i + 1) * k, i * k:(i + 1) * k]) for i in range(len(final))],
                  c1=[dig(b) for b in covs], newc=newc)
        self.evs.append(ev)
        t.active, t.bounds, t.fixed, t.region = final, bounds, fixed, region
        t.draws += draws
        if newc:
            t.covs = np.array(covs)
            t.cov = block_diag(*t.covs.astype(float))

    def checkin(self, h):
        t, sc = self.task, self.sc
        kw = dict(new_bounds=t.bounds) if h["newb"] else {}
        _, exc = attempt(sc.checkin_region, t.active, t.fixed, t.draws, block_covs=t.covs, taskID=len(self.evs), **kw)
        ev = dict(op="checkin", newb=h["newb"])
        if exc:
            ev["exc"] = exc
        else:
            ev.update(p=self.pd(sc.sourcecat), b=self.bd(sc.bounds_catalog), c=self.scd(), niter=[int(v) for v in sc.sourcecat["n_iter"]],
                      active=int(sc.n_active))
        self.evs.append(ev)
        self.task = None

    def edge(self):
        """A value on its bound: sampling cannot start there."""
        t = self.task
        u = self.place(self.crows(t.active, [c for c in self.cols if c in SHAPES or self.w.bands.index(c) in self.present]), t.bounds)
        return any(not 8 <= v <= Q - 8 for r in u for v in r)


def run_case(case):
    r = Run(case)
    try:
        cfg = dict(src=[dict(p=p, b=b, c=c) for p, b, c in zip(r.pd(r.sc.sourcecat), r.bd(r.sc.bounds_catalog), r.scd())],
                   niter=[int(v) for v in r.sc.sourcecat["n_iter"]])
        for h in case["h"]:
            if h["op"] == "checkout":
                h = dict(h, seed=h["seed"] - 1)
            if h["op"] == "sample" and r.edge():
                continue
            getattr(r, h["op"])(h)
            if "exc" in r.evs[-1]:
                break
            if r.evs[-1].get("ill"):                  # sources that cannot be told apart
                r.evs.pop()
                break
        return dict(cfg=cfg, ev=r.evs)
    finally:
        shutil.rmtree(r.work, ignore_errors=True)


def run(c):
    rng = c.rng
    hist = c.model("MCFit", dict(N=2, Rounds=2, Stages=c.q(1, 2)), invariants=["Contained", "Held", "Once", "Clean"], properties=["Untouched"])
    c.extra["model_behaviours"] = len(hist)
    cap = c.q(250, 2500)
    if len(hist) > cap:
        hist = rng.sample(hist, cap)
    mk = lambda h, n: dict(h=h, n=n, nb=(nb := rng.choice([1, 1, 2, 3])), nexp=nb + rng.choice([0, 1]), maxpix=rng.choice([60, 100]),
                           scale=rng.choice([0, 0, 4]), wscale=rng.choice([0, 4]), rseed=rng.randint(0, 2 ** 31))
    cases = [mk(h, 2) for h in hist]
    tr = c.execute(run_case, cases)
    c.validate("FitRunTrace", tr, cases, label="model histories replayed", chunk=200)
    cases = []
    for _ in range(c.q(100, 1000)):
        n = rng.choice([1, 2, 3, 4])
        h = []
        for _ in range(rng.choice([1, 2, 3])):
            h.append(dict(op="checkout", n=rng.randint(1, min(3, n)), seed=rng.randint(1, n)))
            lin = False
            for _ in range(rng.choice([1, 2, 2, 3])):
                if rng.random() < .5:
                    h.append(dict(op="optimize", lin=rng.random() < .5, bar=rng.random() < .5))
                    lin |= h[-1]["lin"]
                else:
                    h.append(dict(op="sample", tune=rng.random() < .5))
            h.append(dict(op="checkin", newb=lin or rng.random() < .5))
        cases.append(mk(h, n))
    tr = c.execute(run_case, cases)
    c.validate("FitRunTrace", tr, cases, label="random runs", chunk=200)
    c.assumptions += ["bounds replaced by a linear optimisation are checked in with the parameters",
                      "covariances are only used when every band of the scene is present in the patch",
                      "the linear fluxes of sources that cannot be told apart, and sampling from a value on its bound, are out of scope"]
