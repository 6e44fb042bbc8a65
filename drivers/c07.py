"""C07: packing of pixels."""
from . import pixels


def run(c):
    rng = c.rng
    hist = c.model("MCPack", dict(NE=3, NBands=3, Sizes="{0, 1, 3}", Blocks="{2}", MinBands=c.q(2, 1)),
                   invariants=["Partition", "Lossless"], workers=4, timeout=900)
    c.extra["model_behaviours"] = len(hist)
    cap = c.q(1500, 12000)
    if len(hist) > cap:
        hist = rng.sample(hist, cap)
    cases = []
    for h in hist:
        kind = rng.choice(["fits", "fits", "direct"])
        ex = [e for e in h["exps"] if kind == "fits" or e[1] > 0]
        if not ex:
            continue
        cases.append(dict(kind=kind, exps=ex, bands=h["bands"], blk=h["blk"] if kind == "fits" else 0, rseed=rng.randint(0, 2 ** 31), rep=1))
    tr = c.execute(pixels.run_packed, cases)
    c.validate("PixelsTrace", tr, cases, label="packing configurations of the model")
    cases = [dict(kind=rng.choice(["fits", "fits", "store", "direct"]), maxexp=6, maxside=9, builds=4, rseed=rng.randint(0, 2 ** 31))
             for _ in range(c.q(400, 5000))]
    tr = c.execute(pixels.run_random, cases)
    c.validate("PixelsTrace", tr, cases, label="random exposures and regions", chunk=400)
    c.assumptions += ["regions and images away from the RA origin and the poles, square pixels",
                      "corners closer than 0.01 pixel to the region's edge are accepted either way"]
