"""C16: percentile, group and appended catalogues."""
import os, random, shutil, tempfile

import numpy as np
from astropy.io import fits

from vlib.core import attempt
from forcepho.utils import catalog as uc

POS = ["ra", "dec"]


def ints(a):
    a = np.asarray(a, dtype=float)
    return np.where(np.isfinite(a) & (np.abs(a) < 1e9), np.round(a), 1999999999).astype(int).tolist()


def sid(v):
    return v.decode() if isinstance(v, bytes) else str(v)


def make(rng, n, ns, bands, strid):
    dt = [("id", "U12" if strid else "<i4"), ("source_index", "<i4")] + [(c, "<f8", (ns,)) for c in bands + POS]
    cat = np.zeros(n, dtype=dt)
    cat["id"] = rng.sample(range(1, 90), n)
    cat["source_index"] = rng.sample(range(n), n)
    rows = []
    for r in cat:
        for c in bands + POS:
            r[c] = [12 * rng.randint(-50, 50) for _ in range(ns)]
        rows.append(dict(id=str(r["id"]), k=int(r["source_index"]), s=[ints(r[c]) for c in bands + POS]))
    return cat, rows


def run_summary(case):
    rng = random.Random(case["rseed"])
    work = tempfile.mkdtemp(prefix="vsum_")
    evs = []
    try:
        bands = ["B%d" % k for k in range(case["nb"])]
        for _ in range(3):
            n, ns = rng.randint(1, 5), rng.randint(2, 6)
            cat, rows = make(rng, n, ns, bands, rng.random() < .5)
            ps = rng.choice([[16, 50, 84], [50], [5, 95], [0, 25, 50, 75, 100], [84, 16]])
            src = cat
            if rng.random() < .4:
                src = os.path.join(work, "cat.fits")
                h = fits.Header()
                h["FILTERS"] = ",".join(bands)
                fits.HDUList([fits.PrimaryHDU(header=h), fits.BinTableHDU(cat)]).writeto(src, overwrite=True)
            ev = dict(op="pct", cat=rows, ps=ps, want=bands + POS)
            r, exc = attempt(uc.pctile_cat, src, percentiles=ps)
            if exc:
                ev["exc"] = exc
            else:
                ec, hdr = r
                ev["out"] = [dict(id=sid(e["id"]), k=int(e["source_index"]), s=[ints(100 * np.atleast_1d(e[c])) for c in bands + POS]) for e in ec]
                ev["cols"] = str(hdr["SMPLCOLS"]).split(",")
                ev["pcts"] = [int(float(v)) for v in str(hdr["PCTS"]).split(",")]
            evs.append(ev)
            # groups
            ids = [r["id"] for r in rows]
            groups = {}
            for g in range(rng.randint(1, 3)):
                groups[900 + g if rng.random() < .7 else f"{700 + g}"] = rng.sample(ids, rng.randint(1, min(4, n)))
            num = {k: [int(v) if rng.random() < .5 else v for v in s] for k, s in groups.items()}
            ev = dict(op="combine", cat=rows, nb=len(bands), groups=[dict(name=str(k), ids=s) for k, s in groups.items()])
            r, exc = attempt(uc.combine_chains, cat, bands, groups=num)
            if exc:
                ev["exc"] = exc
            else:
                oc, hdr = r
                ev["out"] = [dict(id=sid(e["id"]), s=[ints(e[c]) for c in bands + POS]) for e in oc]
                ev["members"] = [[s for s in str(hdr.get(f"G{k}", "")).split(",")] for k in groups]
            evs.append(ev)
        # catalogues of several runs, appended, and the result appended again
        ext = ["MOMENT", "SAMPLES", "BEST", "PERCENTILES"]
        files, want = [], []
        nss = [1, rng.randint(2, 5), 1, 3]
        for f in range(rng.randint(1, 3)):
            n = rng.randint(1, 4)
            cr = [make(rng, n, k, bands, True) for k in nss]
            name = os.path.join(work, f"in{f}.fits")
            r, exc = attempt(uc.write_table, name, [c for c, _ in cr], extnames=ext, FILTERS=",".join(bands), ROOT=f"run{f}")
            if exc:
                evs.append(dict(op="append", exc=exc))
                return dict(cfg={}, ev=evs)
            files.append(name)
            want.append([r for _, r in cr])

        def read(name):
            with fits.open(name) as h:
                return [[dict(id=sid(e["id"]), k=int(e["source_index"]), s=[ints(np.atleast_1d(e[c])) for c in bands + POS]) for e in h[x].data] for x in ext]
        for k in range(2):
            out = os.path.join(work, f"out{k}.fits")
            ev = dict(op="append", files=want)
            _, exc = attempt(uc.append_catalogs, files, out)
            if exc is None:
                ev["out"], exc = attempt(read, out)
            if exc:
                ev["exc"] = exc
                ev.pop("out", None)
            evs.append(ev)
            if exc:
                break
            files, want = [out, files[0]], [ev["out"], want[0]]
        return dict(cfg={}, ev=evs)
    finally:
        shutil.rmtree(work, ignore_errors=True)
