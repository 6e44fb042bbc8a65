"""C08: preparation of the working data, design matrix, linear fluxes."""
import random, shutil, tempfile
from drivers.images import World, Session, run_case


def run_history(case):
    """A history of the model: numbers of sources, batch size, and the operations that follow."""
    rng = random.Random(case["rseed"])
    work = tempfile.mkdtemp(prefix="vsub_")
    try:
        c = case["h"]["c"]
        w = World(rng, work, case["nb"], case["nexp"], 3, maxpix=case["maxpix"], other=1)
        idx = list(range(len(w.exps)))
        rng.shuffle(idx)
        s = Session(w, w.patcher(idx), idx)
        bands = list(range(len(w.bands)))
        rng.shuffle(bands)
        s.build(bands)
        mk = lambda n, b, o=False: [w.src(big=b, other=o) for _ in range(n)]
        big = mk(c["big"], .06, rng.random() < .6) if c["big"] or rng.random() < .3 else None
        fixed = mk(c["fix"], .03) if c["fix"] or rng.random() < .3 else None
        act = mk(c["act"], .12)
        s.prepare(act, fixed, big, c["max"])
        for o in case["h"]["ops"]:
            if "exc" in s.evs[-1]:
                break
            if o == "eval":
                s.evaluate(list(act) if rng.random() < .6 else mk(c["act"], .12))
                continue
            ss = [w.src(a) for a in rng.sample(range(3), rng.randint(1, 3))]
            if o == "fit" and not w.distinct(ss, s):
                o = "design"
            getattr(s, o)(ss)
        return dict(cfg=w.cfg(), ev=s.evs)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(c):
    rng = c.rng
    hist = c.model("MCSubtract", dict(MaxBig=2, MaxFix=c.q(4, 6), MaxAct=2, MaxBatch=3, MaxOps=c.q(2, 3)),
                   invariants=["Prepared", "Never", "Limit"])
    c.extra["model_behaviours"] = len(hist)
    cap = c.q(700, 6000)
    if len(hist) > cap:
        hist = rng.sample(hist, cap)
    cases = []
    for h in hist:
        nb = rng.choice([1, 1, 2])
        cases.append(dict(h=h, nb=nb, nexp=nb + rng.choice([0, 1]), maxpix=40, rseed=rng.randint(0, 2 ** 31)))
    tr = c.execute(run_history, cases)
    c.validate("LikelihoodTrace", tr, cases, label="model histories replayed", chunk=1000)
    cases = []
    for k in range(c.q(150, 1500)):
        nb = rng.choice([1, 2, 2, 3, 4])
        cases.append(dict(nb=nb, nexp=nb + rng.choice([0, 0, 1, 2]), natoms=rng.randint(1, 4), other=rng.choice([0, 1, 2]), maxpix=rng.choice([40, 80, 160]),
                          rounds=rng.choice([1, 2, 3]), maxact=rng.choice([1, 2, 4]), pfixed=.8, maxfixed=rng.choice([3, 8, 20]), evals=4, plin=.6,
                          scale=rng.choice([0, 0, 8, -10]), wscale=rng.choice([0, 6, -4]), rseed=rng.randint(0, 2 ** 31)))
    tr = c.execute(run_case, cases)
    c.validate("LikelihoodTrace", tr, cases, label="random histories", chunk=400)
    cases = []
    for k in range(c.q(24, 300)):
        nb = rng.choice([1, 1, 2])
        cases.append(dict(nb=nb, nexp=nb + rng.choice([0, 1]), natoms=rng.randint(2, 4), maxpix=40, rounds=rng.choice([1, 2]), maxact=rng.choice([2, 15, 30]),
                          pfixed=1, maxfixed=1, evals=2, plin=.4, crowd=1, rseed=rng.randint(0, 2 ** 31)))
    tr = c.execute(run_case, cases)
    c.validate("LikelihoodTrace", tr, cases, label="crowded fields", chunk=400)
    c.assumptions += ["a patch is rebuilt between two preparations with fixed sources (as the run-level tasks do)",
                      "the sources of a linear fit are distinguishable in every band"]
