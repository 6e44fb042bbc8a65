"""C12: histories of additions to the pixel store."""
import os, random, shutil, tempfile, copy

import h5py
import numpy as np
from astropy.io import fits

from vlib.core import attempt
from forcepho.patches.storage import PixelStore, ImageSet, ImageNameSet

ZP = {0: 31.4, 1: 28.9, 2: 26.4, -1: 33.9}
BAD = 1999999999


def ints(a, s):
    a = np.asarray(a, dtype=float).reshape(-1) * s
    a = np.where(np.isfinite(a) & (np.abs(a) < 1.9e9), np.round(a), BAD)
    return [int(v) for v in a]


def run_case(case):
    rng = random.Random(case["rseed"])
    work = tempfile.mkdtemp(prefix="vsto_")
    try:
        s, nx, ny = case["s"], case["nx"], case["ny"]
        h5 = os.path.join(work, "p.h5")
        evs = []
        nside = nx if nx == ny and rng.random() < .5 else np.array([nx, ny])
        store = PixelStore(h5, nside_full=nside, super_pixel_size=s)
        last = {}
        for op in case["ops"]:
            if op.get("rand"):
                u = rng.random()
                k = rng.choice(case["keys"])
                op = dict(op="open") if u < .15 else dict(op="refuse", key=k) if u < .2 else \
                    dict(op="again", key=k) if u < .3 and k in last else dict(op="add", key=k)
            if op["op"] == "open":
                ev = dict(op="open")
                store.close()
                st, exc = attempt(PixelStore, h5, nside_full=rng.choice([2048, 16]), super_pixel_size=rng.choice([8, 2, 4]))
                if exc:
                    evs.append(dict(ev, exc=exc))
                    break
                store = st
                n = np.zeros(2) + store.nside_full
                evs.append(dict(ev, nx=int(n[0]), ny=int(n[1]), s=int(store.super_pixel_size)))
            else:
                key = op["key"]
                band, exp = key.split(":")
                right = op["op"] != "refuse"
                if op["op"] == "again":
                    imset, ev = last[key]          # the very same objects once more
                    ev = {k: v for k, v in ev.items() if k not in ("same", "exc")}
                    bits, cal = ev["bits"], ev["_cal"]
                else:
                    X, Y = (nx, ny) if right else rng.choice([(nx + s, ny), (nx, ny + 1), (ny + s, nx + s)])
                    dt = rng.choice([np.float32, np.float64])
                    im, ie = np.zeros((X, Y), dtype=dt), np.zeros((X, Y), dtype=dt)
                    bkg = np.zeros((X, Y), dtype=dt) if rng.random() < .5 else None
                    mk = rng.choice([None, "int", "bool"])
                    mask = None if mk is None else np.zeros((X, Y), dtype=np.int32 if mk == "int" else bool)
                    bits = rng.choice([1, 2, 6, 5]) if mk == "int" and rng.random() < .6 else 0
                    cal = rng.random() < .5
                    k10 = rng.choice([0, 1, 2, -1])
                    hdr = fits.Header()
                    if rng.random() < .8:
                        hdr["ABMAG"] = ZP[k10]
                    else:
                        k10 = 0
                    if not cal:
                        k10 = 0
                    px = []
                    t0 = rng.randint(1, 900)
                    for x in range(X):
                        for y in range(Y):
                            f = t0 + x * Y + y
                            if rng.random() < .1:
                                f = -f
                            w = rng.choice([0, 1000, rng.randint(1, 1999)]) if rng.random() < .2 else rng.randint(1, 1999)
                            b = rng.randint(-50, 50) if bkg is not None else 0
                            m = rng.randint(0, 7) if mk == "int" and rng.random() < .4 else rng.randint(0, 1) if mk == "bool" else 0
                            ok = 1
                            im[x, y], ie[x, y] = f, w / 1000.
                            if bkg is not None:
                                bkg[x, y] = b
                            if mask is not None:
                                mask[x, y] = m
                            if rng.random() < .12:
                                ok = 0
                                z = rng.randrange(5 if bkg is not None else 4)
                                if z == 0:
                                    im[x, y] = rng.choice([np.nan, np.inf])
                                elif z == 1:
                                    ie[x, y] = rng.choice([np.nan, np.inf])
                                elif z == 2:
                                    ie[x, y] = -abs(w + 1) / 1000.
                                elif z == 3:
                                    im[x, y], ie[x, y] = np.nan, np.nan
                                else:
                                    bkg[x, y] = np.nan
                            px.append([x, y, f, w, b, int(m), ok])
                    names = rng.choice([None, "a.fits", ImageNameSet("a.fits", "b.fits", None, None)])
                    imset = ImageSet(im=im, ierr=ie, mask=mask, bkg=bkg, hdr=hdr, band=band, expID=exp, names=names)
                    ev = dict(op="add", key=key, px=px if right else [], bits=bits, k10=k10, right=right, _cal=cal)
                before = [None if a is None else np.array(a) for a in imset[:4]]
                store.close()
                _, exc = attempt(store.add_exposure, imset, bitmask=bits or None, do_fluxcal=cal)
                ev["same"] = all((a is None and b is None) or np.array_equal(np.nan_to_num(np.asarray(a, float), nan=-9.25), np.nan_to_num(np.asarray(b, float), nan=-9.25))
                                 for a, b in zip(before, imset[:4]))
                if right:
                    last[key] = (imset, ev)
                evs.append(dict(ev, exc=exc) if exc else ev)
            evs.append(read(store, h5, rng))
            if "exc" in evs[-1]:
                break
        store.close()
        for e in evs:
            e.pop("_cal", None)
        return dict(cfg=dict(nx=nx, ny=ny, s=s), ev=evs)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def read(store, h5, rng):
    ev = dict(op="read")

    def go():
        f = store.data
        recs = []

        def visit(name, obj):
            if isinstance(obj, h5py.Dataset) and name.endswith("/data"):
                band, exp = name[:-5].split("/", 1)
                s2 = store.super_pixel_size ** 2
                a = obj[:]
                recs.append(dict(key=f"{band}:{exp}", d=ints(a[:, :, :s2], 10), w=ints(a[:, :, s2:], 1e6), conv=ints([obj.attrs["counts_to_flux"]], 10)[0]))
        f.visititems(visit)
        ev["recs"] = recs
        ev["x"], ev["y"] = ints(store.xpix, 1), ints(store.ypix, 1)
        ev["corners"] = [[[int(v) for v in p] for p in q] for q in np.asarray(store.superpixel_corners()).reshape(-1, 4, 2)]
    _, exc = attempt(go)
    store.close()
    if exc:
        return dict(op="read", exc=exc)
    return ev


def run(c):
    rng = c.rng
    keys = ["B1:a", "B1:a/b", "B2:a"]
    hist = c.model("MCStore", dict(Keys="{" + ", ".join(f'"{k}"' for k in keys) + "}", Versions="{1, 2}", Depth=c.q(4, 5)),
                   invariants=["LastVersion"], view="View", timeout=900)
    c.extra["model_behaviours"] = len(hist)
    cap = c.q(1200, 6000)
    if len(hist) > cap:
        hist = rng.sample(hist, cap)
    cases = [dict(ops=h, keys=keys, s=2, nx=4, ny=2, rseed=rng.randint(0, 2 ** 31)) for h in hist]
    tr = c.execute(run_case, cases)
    c.validate("StoreTrace", tr, cases, label="store histories of the model")
    cases = []
    for _ in range(c.q(200, 3000)):
        s = rng.choice([1, 2, 3, 4])
        cases.append(dict(ops=[dict(rand=1)] * rng.randint(2, 8), keys=["B1:a", "B1:b", "B1:a/b", "B2:a", "B2:c/d/e", "B2:c"][:rng.randint(1, 6)],
                          s=s, nx=s * rng.randint(1, 4), ny=s * rng.randint(1, 4), rseed=rng.randint(0, 2 ** 31)))
    tr = c.execute(run_case, cases)
    c.validate("StoreTrace", tr, cases, label="random store histories", chunk=500)
    # long sides: coordinates beyond one byte
    cases = []
    for k in range(c.q(8, 60)):
        s = rng.choice([1, 2, 4, 8])
        a, b = s * (rng.choice([130, 260, 600, 2100][:c.q(3, 4)]) // s + 1), s
        cases.append(dict(ops=[dict(rand=1)] * 2, keys=["B1:a", "B2:a"], s=s, nx=(a, b)[k % 2], ny=(b, a)[k % 2], rseed=rng.randint(0, 2 ** 31)))
    tr = c.execute(run_case, cases)
    c.validate("StoreTrace", tr, cases, label="long images", chunk=500)
    c.assumptions += ["the read handle is closed before an exposure is added (HDF5 forbids otherwise)",
                      "no exposure is named data", "the value stored for a masked pixel is free as long as it is finite"]
