"""C09: likelihood and gradient composition."""
from drivers.images import run_case, run_fine


def run(c):
    rng = c.rng
    c.model("MCLikelihood", dict(Vals="{0, 1, 3}" if c.quick else "{0, 1, 3, 4}", Imgs="{0, 3}" if c.quick else "{0, 1, 3}"), emit=False, workers=8,
            invariants=["Order", "Bands", "NoWeight", "Slope", "Own"])
    cases = []
    for k in range(c.q(400, 3000)):
        nb = rng.choice([1, 1, 2, 2, 3, 4])
        cases.append(dict(nb=nb, nexp=nb + rng.choice([0, 0, 1, 2]), natoms=rng.randint(1, 4), maxpix=rng.choice([30, 60, 120]),
                          rounds=rng.choice([1, 2]), maxact=rng.choice([1, 2, 3, 5]), pfixed=.2, maxfixed=3, evals=3, plin=0,
                          scale=rng.choice([0, 0, 8, -10]), wscale=rng.choice([0, 6, -4]), rseed=rng.randint(0, 2 ** 31)))
    tr = c.execute(run_case, cases)
    c.validate("LikelihoodTrace", tr, cases, label="likelihood histories", chunk=400)
    cases = [dict(nb=rng.randint(1, 3), nexp=rng.randint(3, 5), bits=rng.choice([12, 14]), rseed=rng.randint(0, 2 ** 31)) for _ in range(c.q(40, 400))]
    tr = c.execute(run_fine, cases)
    c.validate("LikelihoodTrace", tr, cases, label="deep and shallow exposures", chunk=400)
