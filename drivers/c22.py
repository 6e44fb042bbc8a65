"""C22: Gaussian mixtures fitted to point-spread functions, stored and read back."""
import hashlib, math, os, pickle, random, shutil, tempfile, warnings

import numpy as np
import h5py
from astropy.io import fits

from vlib.core import attempt
from forcepho.mixtures.psf_mix_em import fit_mvn_mix
from forcepho.mixtures.utils_em import psf_mixture
from forcepho.slow.psf import get_psf, make_psf, PointSpreadFunction

BAD = 1999999999
LIMIT = 20000


def I(v, s=1.):
    v = float(v) * s
    return int(round(v)) if math.isfinite(v) and abs(v) < 1.9e9 else BAD


def gauss(u, v, amp, mu, mv, cuu, cvv, cuv):
    """Density of a bivariate normal at (u, v)."""
    det = cuu * cvv - cuv * cuv
    du, dv = u - mu, v - mv
    return amp / (2 * np.pi * np.sqrt(det)) * np.exp(-.5 * (cvv * du * du + cuu * dv * dv - 2 * cuv * du * dv) / det)


def mix(params, shape):
    r, c = np.mgrid[:shape[0], :shape[1]].astype(float)
    return sum(gauss(r, c, a, m, n, s * s, t * t, rho * s * t) for a, m, n, s, t, rho in np.reshape(params, (-1, 6)))


def lnl(im, params):
    return float(np.sum(im * np.log(mix(params, im.shape))))


def em_step(im, params):
    r, c = np.mgrid[:im.shape[0], :im.shape[1]].astype(float)
    P = np.reshape(params, (-1, 6))
    w = np.array([gauss(r, c, a, m, n, s * s, t * t, rho * s * t) for a, m, n, s, t, rho in P])
    w = w / w.sum(axis=0) * im
    n = w.sum(axis=(1, 2))
    out = []
    for k in range(len(P)):
        mr, mc = (w[k] * r).sum() / n[k], (w[k] * c).sum() / n[k]
        s, t = math.sqrt((w[k] * (r - mr) ** 2).sum() / n[k]), math.sqrt((w[k] * (c - mc) ** 2).sum() / n[k])
        out += [n[k] / n.sum(), mr, mc, s, t, (w[k] * (r - mr) * (c - mc)).sum() / (n[k] * s * t)]
    return np.array(out)


def moments(im):
    r, c = np.mgrid[:im.shape[0], :im.shape[1]].astype(float)
    t = im.sum()
    return [float((im * f).sum() / t) for f in (r, c, r * r, c * c, r * c)]


def mixmoments(P):
    P = np.reshape(P, (-1, 6))
    a, m, n, s, t, rho = P.T
    return [float((a * f).sum()) for f in (m, n, s * s + m * m, t * t + n * n, rho * s * t + m * n)]


def image(rng, kind, shape, dt=np.float64):
    ny, nx = shape
    r, c = np.mgrid[:ny, :nx].astype(float)
    im = np.zeros(shape)
    for _ in range(rng.randint(1, 3)):
        s, t = rng.uniform(.8, 3), rng.uniform(.8, 3)
        im += gauss(r, c, rng.uniform(.2, 1), (ny - 1) / 2 + rng.gauss(0, .8), (nx - 1) / 2 + rng.gauss(0, .8), s * s, t * t, rng.uniform(-.6, .6) * s * t)
    if kind != "nan":
        im += 10 ** rng.uniform(-5, -2) * im.max()
    else:
        how = rng.randrange(4)
        if how == 0:
            im[im < im.max() * 1e-2] = 0.
        elif how == 1:                                # all the light in one pixel, one row or one diagonal: no second moment there
            im[r != ny // 2] = 0.
        elif how == 2:
            im[(r != ny // 2) | (c != nx // 2)] = 0.
        else:
            im[(r - ny // 2) != (c - nx // 2)] = 0.
    return (im / im.sum()).astype(dt)


def digest(p):
    return int(hashlib.md5(np.ascontiguousarray(p, dtype=float).tobytes()).hexdigest()[:7], 16)


class Session:
    def __init__(self, rng):
        self.rng, self.kept, self.evs = rng, [], []

    def held(self):
        return [digest(p) for p in self.kept]

    def account(self, a, im, thresh):
        p = np.array(a["fitted_params"], dtype=float)
        rec = np.asarray(a["recon_image"], dtype=float)
        with np.errstate(all="ignore"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            want = mix(p, im.shape)
            pk = max(np.nanmax(np.abs(want)), 1e-12) if np.any(np.isfinite(want)) else 1.
            same = rec.shape == want.shape and np.array_equal(np.isfinite(rec), np.isfinite(want))
            rd = I(np.nanmax(np.abs(rec - want), initial=0) / pk, 1e6) if same else BAD
            Q = np.reshape(p, (-1, 6))
            if not np.all(np.isfinite(Q)) or (np.abs(Q[:, 3:5]) < 1e-2).any() or (1 - Q[:, 5] ** 2 < 1e-4).any():
                rd = 0                                # singular: nothing to compare in floating point
            e = np.sqrt(np.sum((im - rec) ** 2))
            d = dict(recon=rd, orig=bool(np.array_equal(a["original_image"], im)), err=[I(a["error_residual"], 1e6), I(e, 1e6)], ll=[], kind="ls", amp=[0, 0], mom=[], gain=0)
            if "final_log_likelihood" in a:
                ll = float(a["final_log_likelihood"])
                d["kind"] = "nan" if not math.isfinite(ll) else "limit" if int(a["loop_count"]) >= LIMIT else "ok"
                if d["kind"] != "nan":
                    d["ll"] = [I(ll, 1e6), I(lnl(im.astype(float), p), 1e6)]
                    d["amp"] = [I(np.reshape(p, (-1, 6))[:, 0].sum(), 1e6), 1000000]
                    d["mom"] = [[I(x, 1e6), I(y, 1e6)] for x, y in zip(mixmoments(p), moments(im.astype(float)))]
                    if d["kind"] == "ok":
                        q = em_step(im.astype(float), p)
                        g = (lnl(im.astype(float), q) - lnl(im.astype(float), p))
                        d["gain"] = I((g if abs(g) > 1e-12 else 0.) / thresh, 1e3)
        return d

    def fit(self, h):
        rng = self.rng
        kind = h["kind"]
        opt, init = h["opt"], h["init"]
        K = h["K"] if opt == "em" else rng.randint(1, 2)
        shape = (rng.randint(5, 7), rng.randint(5, 7)) if kind == "limit" else (rng.randint(13, 15), rng.randint(13, 15)) if opt != "em" else (rng.randint(7, 14), rng.randint(7, 14))
        im = image(rng, kind, shape, rng.choice([np.float64, np.float64, np.float32]))
        thresh = 0. if kind == "limit" else 10 ** rng.uniform(-7, -4)
        if kind == "limit":
            K = 1
        rep, full = (1 if kind == "limit" else h["rep"]), h["full"]
        before = im.copy()
        kw = dict(repeat=rep, printint=False, printfinal=False)
        if opt == "em":
            kw["dlnlike_thresh"] = thresh
        seed = rng.randint(0, 2 ** 31)
        np.random.seed(seed)
        r, exc = quiet(fit_mvn_mix, im, K, opt, init, returnfull=full, **kw)
        ev = dict(op="fit", opt=opt, init=init, K=K, repeat=rep, full=full, shape=list(shape))
        if exc:
            self.evs.append(dict(ev, exc=exc))
            return False
        ans = list(r) if full else [r]
        climb, best = [], []
        if not full and rep > 1:
            np.random.seed(seed)
            r2, exc = quiet(fit_mvn_mix, im, K, opt, init, returnfull=True, **kw)
            if not exc:
                es = [float(a["error_residual"]) for a in r2]
                if all(map(math.isfinite, es)):
                    best = [I(r["error_residual"], 1e6), I(min(es), 1e6)]
        if opt == "em" and init == "greedy" and kind == "ok":
            for t in (1e9, 1e-2, 1e-4, 1e-6):
                a, exc = quiet(fit_mvn_mix, im, K, opt, init, returnfull=True, repeat=1, printint=False, printfinal=False, dlnlike_thresh=t)
                if exc:
                    self.evs.append(dict(ev, exc=exc))
                    return False
                l = float(a[0]["final_log_likelihood"]) if a else float("nan")
                if not math.isfinite(l):
                    break
                climb.append(I(l, 1e6))
        ok = [("fitted_params" in a) for a in ans]
        ev["ans"] = [self.account(a, im, thresh or 1.) for a in ans] if all(ok) else []
        self.kept += [a["fitted_params"] for a in ans if "fitted_params" in a]
        self.evs.append(dict(ev, same=bool(np.array_equal(im, before)), climb=climb, best=best, held=self.held()))
        if ans and opt == "em":
            self.read(ans, K, im)
        return True

    def render(self, psf, shape, os, cy, cx):
        """Image-pixel densities of a detector-pixel mixture about (cy, cx)."""
        r, c = np.mgrid[:shape[0], :shape[1]].astype(float)
        return sum(gauss((c - cx) / os, (r - cy) / os, a, m[0], m[1], V[0, 0], V[1, 1], V[0, 1]) for a, m, V in zip(psf.amplitudes, psf.means, psf.covariances)) / os ** 2

    def tuples(self, psf):
        t = psf.as_tuplelist()
        w = [(a, m[0], m[1], V[0, 0], V[1, 1], V[0, 1]) for a, m, V in zip(psf.amplitudes, psf.means, psf.covariances)]
        return len(t) == len(w) and all(np.allclose(x, y, rtol=1e-9, atol=0) for x, y in zip(t, w))

    def read(self, ans, K, im):
        rng = self.rng
        if not all(np.all(np.isfinite(a["fitted_params"])) and np.all(np.isfinite(a["recon_image"])) for a in ans):
            return
        k = rng.randrange(len(ans))
        Q = np.reshape(ans[k]["fitted_params"], (-1, 6))
        if (Q[:, 3:5] < 1e-2).any() or (1 - Q[:, 5] ** 2 < 1e-4).any():
            return
        os_, cen = rng.choice([1, 2, 4, 8]), rng.choice([0, 7, 104, 6.5])
        work = tempfile.mkdtemp(prefix="vmix_")
        try:
            want = np.asarray(ans[k]["recon_image"], dtype=float)
            P = np.reshape(ans[k]["fitted_params"], (-1, 6)).astype(float)
            mode = rng.choice(["direct", "pickle", "pickledefault", "h5", "h5cen"])
            ev = dict(op="read", mode=mode, want=K, tol=2)
            p = os.path.join(work, "psf.x")
            if mode == "direct":
                r, exc = quiet(make_psf, ans[k], oversample=os_, center=cen)
            elif mode.startswith("pickle"):
                with open(p, "wb") as f:
                    pickle.dump({K: ans} if mode == "pickledefault" else {K: ans, K + 1: None}, f)
                r, exc = quiet(get_psf, p, psf_realization=k, n_gauss=None if mode == "pickledefault" else K, oversample=os_, center=cen)
            else:
                names = ["xcr", "ycr"] if mode == "h5" else ["xcen", "ycen"]
                d = np.zeros((len(ans), K), dtype=[(c, "f8") for c in ["amp"] + names + ["Cxx", "Cyy", "Cxy"]])
                for i, a in enumerate(ans):
                    Q = np.reshape(a["fitted_params"], (-1, 6))
                    d["amp"][i], d[names[0]][i], d[names[1]][i] = Q[:, 0], (Q[:, 2] - cen) / os_, (Q[:, 1] - cen) / os_
                    d["Cxx"][i], d["Cyy"][i], d["Cxy"][i] = (Q[:, 4] / os_) ** 2, (Q[:, 3] / os_) ** 2, Q[:, 5] * Q[:, 3] * Q[:, 4] / os_ ** 2
                with h5py.File(p, "w") as f:
                    f.create_dataset("parameters", data=d)
                r, exc = quiet(get_psf, p, psf_realization=k)
            if exc:
                self.evs.append(dict(ev, exc=exc))
                return
            got = self.render(r, want.shape, os_, cen, cen)
            self.evs.append(dict(ev, n=int(r.n_gauss), render=I(np.max(np.abs(got - want)) / max(np.max(np.abs(want)), 1e-12), 1e6), tuples=self.tuples(r)))
        finally:
            shutil.rmtree(work, ignore_errors=True)

    def mixture(self, h):
        rng = self.rng
        work = tempfile.mkdtemp(prefix="vmix_")
        cwd = os.getcwd()
        try:
            os.chdir(work)
            shape = (rng.randint(8, 15), rng.randint(8, 15))
            if rng.random() < .4:
                shape = (shape[0], shape[0])
            tot = rng.choice([1., 7.5, 1e-3])
            im = image(rng, "ok", shape, rng.choice([np.float32, np.float64])) * tot
            fits.writeto("p.fits", im)
            K, rep, os_ = rng.randint(1, 2), h["rep"], rng.choice([1, 2, 4])
            width = rng.choice([None, None, 3, 4, 5.5, 20])
            np.random.seed(rng.randint(0, 2 ** 31))
            ev = dict(op="mixture", K=K, repeat=rep, os=os_, width=str(width), shape=list(shape))
            r, exc = quiet(psf_mixture, "p.fits", "b1", K, nrepeat=rep, newstyle=True, width=width, oversample=os_)
            if exc:
                self.evs.append(dict(ev, exc=exc))
                return False
            cen = [(shape[0] - 1) / 2, (shape[1] - 1) / 2]
            w = 1e6 if width is None else width
            ev["want"] = [int(max(0, math.floor(c - w))) for c in cen] + [int(min(n, math.floor(c + w))) if width is not None else n for c, n in zip(cen, shape)]
            st, sp = [int(v) for v in r["start"]], [int(v) for v in r["stop"]]
            ev["start"], ev["stop"] = st, sp
            sub = im[st[0]:sp[0], st[1]:sp[1]].astype(float)
            fr = sub.sum() / im.astype(float).sum()
            sub = sub / sub.sum()
            ev["frac"] = [I(r["flux_fraction"], 1e6), I(fr, 1e6)]
            ev["data"] = I(np.max(np.abs(np.asarray(r["data"], dtype=float).T - sub)) / sub.max(), 1e6) if np.shape(r["data"]) == sub.T.shape else BAD
            par = np.asarray(r["parameters"])
            ev["nrow"] = len(par)
            rows = []
            x, y = np.meshgrid(np.arange(sub.shape[1]) + st[1] - cen[1], np.arange(sub.shape[0]) + st[0] - cen[0], indexing="ij")
            x, y = x / os_, y / os_
            img = sub.T
            mom = [float((img * f).sum()) for f in (x, y, x * x, y * y, x * y)]
            for k in range(min(len(par), len(r["models"]))):
                q = par[k]
                mdl = np.asarray(r["models"][k], dtype=float)
                a, mx, my, cx, cy, cxy = (q[c].astype(float) for c in ("amp", "x", "y", "vxx", "vyy", "vxy"))
                got = [float((a * f).sum()) for f in (mx, my, cx + mx * mx, cy + my * my, cxy + mx * my)]
                with np.errstate(all="ignore"):
                    ren = sum(gauss(x, y, *v) for v in zip(a, mx, my, cx, cy, cxy)) / os_ ** 2
                    ll = float(np.sum(img * np.log(mdl))) if mdl.shape == img.shape else float("nan")
                good = math.isfinite(float(r["lnlike"][k]))
                # very narrow components are beyond the stored (single) precision
                narrow = (cx * os_ ** 2 < .05).any() or (cy * os_ ** 2 < .05).any() or (cx * cy - cxy * cxy < 1e-3 * cx * cy).any()
                rows.append(dict(kind="ok" if good else "nan", amp=[I(a.sum(), 1e6) if good else 1000000, 1000000], mom=[[I(g, 1e6), I(m, 1e6)] for g, m in zip(got, mom)],
                                 render=0 if narrow or not good else I(np.max(np.abs(ren - mdl)) / np.max(mdl), 1e6) if mdl.shape == img.shape else BAD,
                                 ll=[I(r["lnlike"][k], 1e6), I(ll, 1e6)]))
            ev["rows"] = rows
            with h5py.File(f"gmpsf_b1_ng{K}.h5", "r") as f:
                ev["file"] = bool(np.array_equal(f["parameters"][:], par) and np.array_equal(f["psf_image"][:], np.asarray(r["data"]))
                                  and np.array_equal(f["models"][:], np.array(r["models"]), equal_nan=True) and np.array_equal(f["lnlike"][:], np.array(r["lnlike"]), equal_nan=True)
                                  and f["parameters"].attrs["units"] == "pixels")
                A = f.attrs
                ev["attrs"] = bool(A["nmix"] == K and A["nrepeat"] == rep and A["band"] == "b1" and A["image_path"] == "p.fits" and list(A["start"]) == st and list(A["stop"]) == sp
                                   and np.allclose(A["center"], cen) and A["oversample"] == os_ and abs(A["flux_fraction"] - fr) < 1e-5 and np.allclose(r["center"], cen))
            ev["held"] = self.held()
            self.evs.append(ev)
            return True
        finally:
            os.chdir(cwd)
            shutil.rmtree(work, ignore_errors=True)


def quiet(fn, *a, **k):
    with np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return attempt(fn, *a, **k)


def run_case(case):
    s = Session(random.Random(case["rseed"]))
    for h in case["h"]:
        if not getattr(s, h["op"])(h):
            break
    return dict(cfg={}, ev=s.evs)


def run(c):
    rng = c.rng
    hist = c.model("MCMix", dict(P=c.q(4, 5), W=2, Limit=1, Starts=c.q(2, 3)), invariants=["Conserved", "Climbs", "Stationary", "OneEach"], properties=["Kept"], timeout=900)
    c.extra["model_behaviours"] = len(hist)

    def fit(kind):
        opt = "scipy_ls" if kind == "ok" and rng.random() < .08 else "em"
        return dict(op="fit", kind=kind, opt=opt, init="greedy" if opt == "em" and rng.random() < .3 else "random", K=rng.randint(1, 3),
                    rep=rng.randint(1, 3), full=kind != "ok" or rng.random() < .7)
    cases = [dict(h=[fit(k) for k in h], rseed=rng.randint(0, 2 ** 31)) for h in hist for _ in range(c.q(2, 6) if "limit" in h else c.q(30, 200))]
    tr = c.execute(run_case, cases)
    c.validate("MixFitTrace", tr, cases, label="fitting sessions")
    cases = []
    for _ in range(c.q(150, 1500)):
        h = [dict(op="mixture", rep=rng.randint(1, 2)) if rng.random() < .5 else fit(rng.choice(["ok", "ok", "nan"])) for _ in range(rng.randint(1, 3))]
        cases.append(dict(h=h, rseed=rng.randint(0, 2 ** 31)))
    tr = c.execute(run_case, cases)
    c.validate("MixFitTrace", tr, cases, label="stored mixtures")
    c.assumptions += ["images are non-negative with positive total light; least-squares fits start inside the image",
                      "the Hamiltonian Monte Carlo fitter (needs jax) cannot run here and is not covered"]
