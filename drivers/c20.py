"""C20: metadata store, exposure identifiers, PSF lookup."""
import itertools, os, random, shutil, tempfile

import h5py
import numpy as np
from astropy.io import fits
from astropy.wcs import WCS

from vlib.core import attempt
from forcepho.patches.storage import MetaStore, ImageSet, PSFStore, header_to_id, PSF_DTYPE

BAD = 1999999999


def ints(a, s=1., tol=.05):
    a = np.asarray(a, dtype=float).reshape(-1) * s
    a = np.where(np.isfinite(a) & (np.abs(a) < 1.9e9) & (np.abs(a - np.round(a)) < tol), np.round(a), BAD)
    return [int(v) for v in a]


KW = ["EXPTIME", "EFFEXPTM", "SCA_NUM", "EXPCOUNT", "VERYLONGKEYWORDX", "OBSLABEL", "LONGSTR", "FLAG", "SIGNED", "FILENAME"]


def make_header(rng, t, axes3):
    """A header whose every value carries the token t."""
    h = fits.Header()
    h["NAXIS"], h["NAXIS1"], h["NAXIS2"] = 2, 10 + t, 20 + t
    h["CTYPE1"], h["CTYPE2"] = "RA---TAN", "DEC--TAN"
    h["CRVAL1"], h["CRVAL2"] = 10 + t * .25, -20 + t * .125
    h["CRPIX1"], h["CRPIX2"] = 5. + t, 6. + t
    h["CD1_1"], h["CD1_2"], h["CD2_1"], h["CD2_2"] = -1e-5 * (t + 1), 1e-6 * t, 2e-6 * t, 1e-5 * (t + 2)
    if axes3:
        h["NAXIS"], h["NAXIS3"] = 3, 1
        h["CTYPE3"], h["CRPIX3"], h["CRVAL3"], h["CD3_3"] = "WAVE", 1., 1., 1.
    h["EXPTIME"] = 100.5 + t
    h["EFFEXPTM"] = t + .5
    h["SCA_NUM"], h["EXPCOUNT"] = 480 + t, t
    h["HIERARCH VERYLONGKEYWORDX"] = t * 3
    h["OBSLABEL"] = (f"lab {t}", "a comment")
    h["LONGSTR"] = "x" * 90 + f"it's {t}"
    h["FLAG"] = t % 2 == 1
    h["SIGNED"] = -t
    h["FILENAME"] = f"file_{t}.fits"
    h["FILTER"] = "F1"
    h["DETECTOR"] = f"NRC{'AB'[t % 2]}{t}"
    h.add_comment(f"comment {t}")
    return h


def kw_tokens(h):
    r = []
    for k in KW:
        if k not in h:
            r.append(BAD)
            continue
        v = h[k]
        if k in ("OBSLABEL", "FILENAME"):
            d = "".join(ch for ch in v if ch.isdigit())
            r.append(int(d or -1) if v in (f"lab {d}", f"file_{d}.fits") else BAD)
        elif k == "LONGSTR":
            d = v.split(" ")[-1]
            r.append(int(d) if v == "x" * 90 + f"it's {d}" else BAD)
        elif isinstance(v, bool):
            r.append(int(v))
        else:
            r += ints([v], 2)
    r += [int(x) for x in (h.get("NAXIS1", -1), h.get("NAXIS2", -1), h.get("NAXIS", -1))]
    return r


def as_tokens(crval, crpix, cd):
    return ints(crval, 1000) + ints(crpix, 10) + ints(np.array(cd) * 1e7)


def head_as(h):
    return as_tokens([h["CRVAL1"], h["CRVAL2"]], [h["CRPIX1"], h["CRPIX2"]], [h["CD1_1"], h["CD1_2"], h["CD2_1"], h["CD2_2"]])


def wcs_as(w):
    if w.naxis != 2:
        return [w.naxis]
    return as_tokens(w.wcs.crval, w.wcs.crpix, np.array(w.wcs.cd).reshape(-1))


def run_meta(case):
    rng = random.Random(case["rseed"])
    work = tempfile.mkdtemp(prefix="vmet_")
    try:
        ms = MetaStore()
        evs = []
        t = rng.randint(0, 20)
        keys = set()
        for op in case["ops"]:
            if op.get("rand"):
                u = rng.random()
                op = dict(op="add", key=rng.choice(case["keys"])) if u < .5 else dict(op=rng.choice(["find", "file", "fileall", "table", "populate"]))
            o = op["op"]
            if o == "add":
                t += 1
                band, exp = op["key"].split(":")
                h = make_header(rng, t, rng.random() < .2)
                ev = dict(op="add", key=op["key"], hdr=dict(kw=kw_tokens(h), **{"as": head_as(h)}, id=t, tab=[480 + t, t, 2 * t + 1, t % 2]))
                _, exc = attempt(ms.add_exposure, ImageSet(im=None, ierr=None, mask=None, bkg=None, hdr=h, band=band, expID=exp, names=None))
                keys.add(op["key"])
            elif o == "find":
                ev = dict(op="file")
                bands = sorted({k.split(":")[0] for k in keys}) or ["B1"]
                _, exc = attempt(ms.find_exposures, (10., -20.), bands)
            elif o in ("file", "fileall"):
                ev = dict(op="file")
                p = os.path.join(work, rng.choice(["m.json", "n.json"]))

                def go():
                    ms.write_to_file(p)
                    return MetaStore(p, load_all=o == "fileall")
                r, exc = attempt(go)
                if not exc:
                    ms = r
            elif o == "populate":
                ev = dict(op="file")
                _, exc = attempt(ms.populate_wcs)
            else:
                ev = dict(op="table")

                def go():
                    p = os.path.join(work, "t.fits")
                    ms.to_table(p, overwrite=True)
                    a = fits.getdata(p)
                    rows = []
                    for r in a:
                        f = str(r["filename"])
                        d = "".join(ch for ch in f if ch.isdigit())
                        rows.append(dict(id=int(d or 0), tab=[int(r["sca_num"]), int(r["expcount"]), ints([r["effexptm"]], 2)[0],
                                                              {"A": 0, "B": 1}.get(str(r["detector"])[3:4], 9)],
                                         ra=ints([r["ra"]], 1000)[0], dec=ints([r["dec"]], 1000)[0]))
                    return rows
                if not keys:
                    continue
                rows, exc = attempt(go)
                if not exc:
                    ev["rows"] = rows
            evs.append(dict(ev, exc=exc) if exc else ev)
            if exc:
                break
            # what the store shows now
            recs = [dict(key=f"{b}:{e}", kw=kw_tokens(h), **{"as": head_as(h)}) for b in ms.headers for e, h in ms.headers[b].items()]
            evs.append(dict(op="look", recs=recs, nexp=int(ms.nexp)))
            recs = [dict(key=f"{b}:{e}", **{"as": wcs_as(w)}) for b in ms.wcs for e, w in ms.wcs[b].items()]
            evs.append(dict(op="wcs", recs=recs, all=o in ("fileall", "populate", "find")))
        return dict(cfg={}, ev=evs)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run_ids(case):
    rng = random.Random(case["rseed"])
    seg = case["seg"]
    fd = case["framedir"]
    base = fd.rstrip("/") if fd else "/top/x"
    dirs = [""] + ["/".join(p) for n in range(1, case["depth"] + 1) for p in itertools.product(seg, repeat=n)]
    stems = ["a", "a_b", "d"]
    filts, dets = ["F1W", "f2w", "F3M"], ["NRCA1", "NRCB4", "NRCALONG"]
    split = rng.choice([[], ["F1W"], ["F1W", "f2w"]])
    names, calls = [], []
    for d in dirs:
        for s in stems:
            if rng.random() < case["p"] or len(calls) < 2:
                f, det = rng.choice(filts), rng.choice(dets)
                path = "/".join(x for x in (base, d, s + ".fits") if x)
                calls.append((dict(FILTER=f, DETECTOR=det), path))
                names.append(dict(path=(d + "/" + s) if fd else s, band=f.upper() + (det[3] if f in split else "")))
    if rng.random() < .5:
        calls.append(calls[0])
        names.append(names[0])
    ev = dict(op="ids", names=names)

    def go():
        return [header_to_id(h, n, framedir=fd, split_by_detector=split) if split else header_to_id(h, n, framedir=fd) for h, n in calls]
    r, exc = attempt(go)
    if exc:
        return dict(cfg={}, ev=[dict(ev, exc=exc)])
    r2 = [header_to_id(h, n, framedir=fd, split_by_detector=list(split)) for h, n in reversed(calls)][::-1]
    return dict(cfg={}, ev=[dict(ev, ids=[x[1] for x in r], bands=[x[0] for x in r], ids2=[x[1] for x in r2], bands2=[x[0] for x in r2])])


class Src:
    pass


def run_psf(case):
    rng = random.Random(case["rseed"])
    work = tempfile.mkdtemp(prefix="vpsf_")
    try:
        p = os.path.join(work, "psf.h5")
        bands = list(range(1, rng.randint(2, 4) + 1))
        locs = {}
        ng = rng.randint(1, 5)
        sub = rng.choice([1, 1, 2, 64, 2048])      # locations may be fractions of a pixel
        with h5py.File(p, "w") as f:
            for b in bands:
                n = rng.choice([1, 2, 3, 5, 9])
                L = [[rng.randint(0, 2048), rng.randint(0, 2048)] for _ in range(n)]
                noloc = rng.random() < .15
                locs[b] = None if noloc else L
                par = np.zeros((n, ng), dtype=PSF_DTYPE)
                for k in range(n):
                    par["amp"][k] = b * 1000 + k + 1
                    par["xcen"][k] = np.arange(ng)
                g = f.create_group(f"B{b}")
                g.create_dataset("parameters", data=par)
                g.attrs["n_psf_per_source"] = ng
                if not noloc:
                    g.create_dataset("detector_locations", data=(np.array(L) / sub if sub > 1 else np.array(L)).T)
        ps = PSFStore(p)
        evs = []
        for _ in range(12):
            b = rng.choice(bands)
            L = locs[b]
            xy = [rng.randint(-100, 2200), rng.randint(-100, 2200)] if not L or rng.random() < .5 else [v + rng.randint(-60, 60) for v in rng.choice(L)]
            ev = dict(op="psf", band=b, xy=xy, locs=L or [[0, 0]], slack=0)
            mode = rng.choice(["xy", "xy", "none", "wcs" if sub == 1 else "xy"])
            if mode == "xy":
                r, exc = attempt(ps.lookup, f"B{b}", xy=rng.choice([tuple(v / sub for v in xy), [v / sub for v in xy], np.array(xy) / sub]))
            elif mode == "none":
                r, exc = attempt(ps.lookup, f"B{b}")
            else:
                s = Src()
                s.ra, s.dec = 10. + rng.uniform(-.01, .01), 5. + rng.uniform(-.01, .01)
                w = WCS(naxis=2)
                w.wcs.ctype, w.wcs.crval, w.wcs.crpix = ["RA---TAN", "DEC--TAN"], [10., 5.], [1024., 1024.]
                w.wcs.cd = np.array([[-1e-5, 0], [0, 1e-5]])
                x, y = w.world_to_pixel_values(s.ra, s.dec)
                ev["xy"], ev["slack"] = [int(round(float(x))), int(round(float(y)))], 6000
                r, exc = attempt(ps.get_local_psf, band=f"B{b}", source=s, wcs=w)
            if exc:
                evs.append(dict(ev, exc=exc))
                break
            r = np.asarray(r)
            a = np.unique(r["amp"])
            evs.append(dict(ev, tok=int(a[0]) if len(a) == 1 else BAD, has=mode != "none" and L is not None,
                            whole=r.shape == (ng,) and bool(np.all(r["xcen"] == np.arange(ng)))))
        return dict(cfg={}, ev=evs)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(c):
    rng = c.rng
    keys = ["B1:a", "B1:s/b", "B2:a"]
    hist = c.model("MCMeta", dict(Keys="{" + ", ".join(f'"{k}"' for k in keys[:c.q(2, 3)]) + "}", Versions="{1, 2}", Depth=c.q(5, 6)),
                   invariants=["Coherent"], view="View", timeout=900)
    c.extra["model_behaviours"] = len(hist)
    cap = c.q(2000, 12000)
    if len(hist) > cap:
        hist = rng.sample(hist, cap)
    cases = [dict(ops=h, keys=keys, rseed=rng.randint(0, 2 ** 31)) for h in hist]
    cases += [dict(ops=[dict(rand=1)] * rng.randint(2, 15), keys=["B1:a", "B1:b", "B2:a", "B2:s/a", "B3:s/t/a"][:rng.randint(1, 5)],
                   rseed=rng.randint(0, 2 ** 31)) for _ in range(c.q(200, 3000))]
    tr = c.execute(run_meta, cases)
    c.validate("MetaTrace", tr, cases, label="metadata store histories")
    cases = []
    for fd in (None, "/top", "/top/", "/d", "/top/d", "/top/d/", "d", "/d/d"):
        for k in range(c.q(3, 20)):
            cases.append(dict(framedir=fd, seg=["d", "e", "top"][:rng.randint(1, 3)], depth=rng.randint(1, 3), p=rng.choice([.5, 1.]), rseed=rng.randint(0, 2 ** 31)))
    tr = c.execute(run_ids, cases)
    c.validate("MetaTrace", tr, cases, label="exposure identifiers")
    cases = [dict(rseed=rng.randint(0, 2 ** 31)) for _ in range(c.q(300, 3000))]
    tr = c.execute(run_psf, cases)
    c.validate("MetaTrace", tr, cases, label="PSF lookups")
    c.assumptions += ["file names end in .fits and contain it nowhere else", "the frame directory is a leading part of the path",
                      "detector locations are stored as two rows"]
