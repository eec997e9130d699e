"""C02: averaged values, weights and flags of every output cell."""
from props.avgcommon import *  # noqa: F401,F403
from props.avgcommon import make, OPT, execute as _exec

NPROC = {"jit": 3}
FM = [dict(prow=0.0, pcell=0.0, dtype="uint8"),
      dict(prow=0.4, pcell=0.2, dtype="uint8"),
      dict(prow=0.2, pcell=0.6, dtype="bool"),
      dict(prow=0.8, pcell=0.5, dtype="uint8"),
      dict(prow=0.5, pcell=0.3, dtype="int32", val=2)]


def subset(rng):
    k = rng.random()
    if k < 0.25:
        return list(OPT)
    if k < 0.5:
        drop = set(rng.sample(OPT, rng.randint(1, 4)))
        return [o for o in OPT if o not in drop]
    return [o for o in OPT if rng.random() < 0.5]


def gen(rng, tier, emitted):
    cases = []
    quick = tier == "quick"
    for i in range(550 if quick else 5000):
        fm = dict(rng.choice(FM))
        if rng.random() < 0.05:
            fm["disagree"] = True
        c = make(rng, rng.choice([1, 2, 3, 4, 6, 8, 10]), subset(rng),
                 nchan=rng.choice([1, 2, 3, 4, 5, 7]),
                 ncorr=rng.choice([1, 2, 4]), flagmode=fm,
                 zero_w=rng.random() < 0.2)
        cases.append(dict(kind="average-random", modes=["interp"], grp="b",
                          **{"in": c}))
    for i in range(4 if quick else 40):
        c = make(rng, rng.choice([20, 30]), list(OPT), nchan=16, ncorr=4,
                 flagmode=FM[1])
        cases.append(dict(kind="average-large", modes=["interp"], grp="b",
                          **{"in": c}))
    groups = [list(OPT),
              [o for o in OPT if o not in ("ws", "fr", "ss")],
              [o for o in OPT if o not in ("flag", "w", "sig")]]
    if not quick:
        groups += [["vis", "flag", "w"], ["vis", "flag", "ws", "uvw"],
                   ["vis", "ss"], ["flag", "fr", "ss", "w"],
                   ["sig", "tc", "exp", "cf"]]
    for g, opts in enumerate(groups):
        for i in range(60 if quick else 200):
            fm = dict(FM[[1, 3][i % 2]])
            fm["dtype"] = "uint8"
            c = make(rng, rng.choice([1, 2, 5, 9, 14]), opts,
                     nchan=rng.choice([1, 2, 4, 5]), ncorr=4, flagmode=fm)
            c.update(fdt="float64", lay="C", order=0, vdt="complex128")
            cases.append(dict(kind="average-compiled", modes=["jit"],
                              grp="g%d" % g, **{"in": c}))
    return cases


def execute(case, mode):
    return _exec(case, mode)
