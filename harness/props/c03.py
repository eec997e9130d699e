"""C03: chunked averaging equals averaging chunk by chunk, any schedule."""
from props.avgcommon import *  # noqa: F401,F403
from props.avgcommon import make, OPT, execute as _exec
from props.c02 import FM, subset

NPROC = {"jit": 2}


def gen(rng, tier, emitted):
    cases = []
    quick = tier == "quick"
    for i in range(380 if quick else 3000):
        fm = dict(rng.choice(FM))
        if rng.random() < 0.03:
            fm["disagree"] = True
        c = make(rng, rng.choice([1, 2, 3, 4, 6, 8, 10]), subset(rng),
                 nchan=rng.choice([1, 2, 3, 4, 5, 7]),
                 ncorr=rng.choice([1, 2, 4]), flagmode=fm, dask=True)
        cases.append(dict(kind="chunked-random", modes=["interp"], grp="b",
                          **{"in": c}))
    for i in range(25 if quick else 200):
        # no column with channels at all
        opts = [o for o in ("tc", "exp", "uvw", "w", "sig", "fr")
                if rng.random() < 0.5]
        c = make(rng, rng.choice([1, 2, 4, 7]), opts, nchan=1,
                 ncorr=rng.choice([1, 2]), flagmode=dict(rng.choice(FM)),
                 dask=True)
        cases.append(dict(kind="chunked-rows-only", modes=["interp"],
                          grp="b", **{"in": c}))
    groups = [list(OPT), ["vis", "flag", "uvw", "ws"]]
    for g, opts in enumerate(groups if not quick else groups):
        for i in range(40 if quick else 200):
            fm = dict(FM[1])
            c = make(rng, rng.choice([2, 5, 9, 14]), opts,
                     nchan=rng.choice([1, 2, 4, 5]), ncorr=4, flagmode=fm,
                     dask=True)
            c.update(fdt="float64", lay="C", order=0, vdt="complex128")
            cases.append(dict(kind="chunked-compiled", modes=["jit"],
                              grp="g%d" % g, **{"in": c}))
    return cases


def execute(case, mode):
    return _exec(case, mode)
