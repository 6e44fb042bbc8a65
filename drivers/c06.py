"""C06: posterior cache coherence."""
import random
import numpy as np
from vlib.core import attempt
from forcepho.model import FastPosterior, SlowPosterior, Transform, BoundedTransform
from forcepho.kernel_limits import NPARAMS


class ToyTransform(Transform):
    def __init__(self, d, j):
        self.ndim, self.d, self.j = len(d), np.array(d, dtype=float), np.array(j, dtype=float)

    def transform(self, z):
        return self.j * np.array(z)

    def jacobian(self, z):
        return self.j.copy()

    def lndetjac(self, z):
        return float(np.dot(self.d, z))

    def lndetjac_grad(self, z):
        return self.d.copy()

    def inverse_transform(self, q):
        return np.array(q) / self.j


class ToyScene:
    def set_all_source_params(self, q):
        self.q = np.array(q, dtype=float)

    def get_all_source_params(self):
        return self.q.copy()

    def get_proposal(self):
        return dict(fluxes=self.q.copy(), q=self.q.copy())


class ToyPatch:
    def __init__(self, ns, nb, rr):
        self.n_sources, self.n_bands, self.return_residual = ns, nb, rr
        self.scene = None


class ToyProposer:
    """chi2 = 2 sum w q^2 split over bands; derivatives as the kernel returns them."""

    def __init__(self, w, ns, nb):
        self.w, self.ns, self.nb, self.calls = np.array(w, dtype=float), ns, nb, 0

    def evaluate_proposal(self, proposal, patch=None, unpack=True, **kw):
        self.calls += 1
        q = proposal["q"]
        npar = self.nb + NPARAMS - 1
        qq, ww = q.reshape(self.ns, npar), self.w.reshape(self.ns, npar)
        chi2 = np.zeros(self.nb)
        der = np.zeros((self.nb, self.ns, NPARAMS))
        for b in range(self.nb):
            chi2[b] = 2 * np.sum(ww[:, b] * qq[:, b] ** 2)
            der[b, :, 0] = 4 * ww[:, b] * qq[:, b]
        # shapes: split unevenly between the bands
        f = np.zeros(self.nb)
        f[0] = 1.
        if self.nb > 1:
            f[0], f[1] = .25, .75
        s = 2 * np.sum(ww[:, self.nb:] * qq[:, self.nb:] ** 2)
        for b in range(self.nb):
            chi2[b] += f[b] * s
            der[b, :, 1:] = f[b] * 4 * ww[:, self.nb:] * qq[:, self.nb:]
        if patch.return_residual:
            return chi2, der, [q.copy()]
        return chi2, der


def prior(c, e):
    return (lambda q: (float(c * np.sum(e * q)), c * e)) if c else None


def run_case(case):
    rng = random.Random(case["rseed"])
    ns, nb = case["ns"], case["nb"]
    npar = ns * (nb + NPARAMS - 1)
    if case["small"]:
        base = [[1, 2], [3, -1], [0, 4]]
        vals = [[b[k % 2] + (k // 2) for k in range(npar)] for b in base]
        w, d = [1 + k % 3 for k in range(npar)], [3 + 2 * k for k in range(npar)]
    else:
        vals = [[rng.randint(-20, 20) for _ in range(npar)] for _ in range(5)]
        # vectors that differ in one component only, and equal ones
        vals.append(list(vals[0]))
        vals[-1][rng.randrange(npar)] += 1
        vals.append(list(vals[1]))
        vals.append([-99] * npar)
        vals.append([0] * npar)
        w, d = [rng.randint(0, 5) for _ in range(npar)], [rng.randint(-9, 9) for _ in range(npar)]
        if rng.random() < .5:      # a coordinate far from zero (a right ascension), moved by a few parts in a million
            k = rng.randrange(npar)
            w[k], d[k] = 0, rng.choice([-2, 1, 3])
            for v in vals:
                v[k] = 300000 + rng.randint(0, 3)
    cs = [0, 7, -4]
    jj, ee = [2 + k % 2 for k in range(npar)], [1 + (k // 2) % 3 for k in range(npar)]
    pr = [prior(v, np.array(ee, dtype=float)) for v in cs]
    slow = case["kind"] == "slow"
    calls = [0]
    zs = 2. ** -case.get("zs", 0)      # the sampler's coordinates in finer units (exact in floating point)
    tr = ToyTransform([x / zs for x in d], [x / zs for x in jj])
    if slow:
        def lnlike(q, scene=None, plans=None, **kw):
            calls[0] += 1
            q = np.array(q, dtype=float)
            return -float(np.sum(np.array(w) * q ** 2)), -2. * np.array(w) * q
        p0 = rng.choice([1, 2, 3])
        model = SlowPosterior(scene=ToyScene(), plans=[1], lnlike=lnlike, lnprior=pr[p0 - 1], transform=tr)
        samp = True
    else:
        patch = ToyPatch(ns, nb, case["rr"])
        prop = ToyProposer(w, ns, nb)
        p0 = rng.choice([1, 2]) if not case["small"] else 1
        samp = case["samp"]
        model = FastPosterior(prop, patch, scene=ToyScene(), lnprior=pr[p0 - 1], transform=tr, sampling=samp,
                              logging=case.get("log", False))
    model.ndof = float(case["ndof"])
    arrs = [zs * np.array(vals[0], dtype=float), zs * np.array(vals[1], dtype=float)]
    cfg = dict(arr=[1, 2], prior=p0, samp=samp, ndof=case["ndof"], w=w, d=d, j=jj, e=ee, c=cs, vals=vals)
    evs = []

    def ncalls():
        return calls[0] if slow else prop.calls

    def ints(v, s=1):
        v = np.asarray(v, dtype=float) * s
        v = np.where(np.isfinite(v) & (np.abs(v) < 1e9) & (v == np.round(v)), v, 1999999999)
        return [int(x) for x in v]

    def i1(v, s=1):
        return ints([v], s)[0]
    nres = 0
    last_g = None
    for op in case["ops"]:
        if op.get("rand"):
            op = random_op(rng, len(vals), slow)
        o = op["op"]
        ev = dict(op)
        if o == "set":
            v = zs * np.array(vals[op["v"] - 1], dtype=float)
            if op.get("rebind"):
                arrs[op["a"] - 1] = v
            else:
                arrs[op["a"] - 1][:] = v
        elif o == "query":
            z = arrs[op["a"] - 1]
            z0 = z.copy()
            f = dict(lnprob=model.lnprob, grad=model.lnprob_grad, both=model.lnprob_and_grad, nll=model.nll,
                     nllng=model.nll_nograd)[op["q"]]
            r, exc = attempt(f, z)
            if exc:
                ev["exc"] = exc
                evs.append(ev)
                break
            ev["lnp"], ev["g"] = 0, []
            s = 2 if op["q"] in ("nll", "nllng") else 1
            if op["q"] in ("lnprob", "nllng"):
                ev["lnp"] = i1(r, s)
            elif op["q"] == "grad":
                ev["g"] = ints(r, zs)
            else:
                ev["lnp"], ev["g"] = i1(r[0], s), ints(r[1], s * zs)
            ev["touched"] = not np.array_equal(z, z0)
        elif o == "prior":
            model._lnpriorfn = pr[op["p"] - 1]
        elif o == "mode":
            model.sampling = op["m"]
        elif o == "resid":
            rr0 = patch.return_residual
            r, exc = attempt(model.residuals, np.array(vals[op["v"] - 1], dtype=float))
            nres += 1
            if exc:
                ev["exc"] = exc
                evs.append(ev)
                break
            ev["r"] = ints(r[0])
            ev["rr"], ev["rr0"] = bool(patch.return_residual), bool(rr0)
        ev["evals"] = ncalls() - nres
        evs.append(ev)
    return dict(cfg=cfg, ev=evs)


def random_op(rng, nv, slow):
    u = rng.random()
    if u < .5:
        return dict(op="query", a=rng.randint(1, 2), q=rng.choice(["lnprob", "grad", "both", "nll", "nllng"]))
    if u < .8 or slow:
        return dict(op="set", a=rng.randint(1, 2), v=rng.randint(1, nv), rebind=rng.random() < .3)
    if u < .87:
        return dict(op="prior", p=rng.randint(1, 3))
    if u < .94:
        return dict(op="mode", m=rng.random() < .5)
    return dict(op="resid", v=rng.randint(1, nv))


def run(c):
    rng = c.rng
    hist = c.model("MCPosterior", dict(Depth=c.q(4, 6), K=c.q(2, 2), NV=2, NP=2), invariants=["Coherent"], view="View", timeout=900)
    c.extra["model_behaviours"] = len(hist)
    cap = c.q(12000, 60000)
    if len(hist) > cap:
        hist = rng.sample(hist, cap)
    cases = [dict(kind="fast", small=True, ns=1, nb=1, rr=False, samp=True, ndof=1, ops=h, rseed=1) for h in hist]
    tr = c.execute(run_case, cases)
    c.validate("PosteriorTrace", tr, cases, label="model histories replayed", chunk=20000)
    cases = []
    for _ in range(c.q(1500, 15000)):
        kind = rng.choice(["fast", "fast", "fast", "slow"])
        cases.append(dict(kind=kind, small=False, ns=rng.randint(1, 3), nb=rng.randint(1, 3), rr=rng.random() < .5, samp=rng.random() < .7,
                          ndof=rng.choice([1, 2]), log=rng.random() < .3, zs=rng.choice([0, 0, 10, 20, 30]), ops=[dict(rand=1)] * rng.randint(5, 40), rseed=rng.randint(0, 2 ** 31)))
    tr = c.execute(run_case, cases)
    c.validate("PosteriorTrace", tr, cases, label="random histories")
    c.assumptions += ["prior and transform objects are replaced, not mutated in place",
                      "arrays returned by queries are not modified by the caller"]
