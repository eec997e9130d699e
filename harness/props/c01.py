"""C01: time bins partition the rows, respect the bin length, are ordered."""
from props.avgcommon import *  # noqa: F401,F403
from props.avgcommon import make, columns, execute as _exec

NPROC = {"jit": 3}


def gen(rng, tier, emitted):
    cases = []
    lines = [x for _, em in emitted for x in em]
    for c in lines:
        columns(rng, c, ["uvw"], 1, 1,
                dict(prow=0, pcell=0, dtype="uint8"))
        c.update(nchan=0, cb=1, cch=[0], T0=0, fdt="float64",
                 vdt="complex64", lay="C", dask=False, seed=0, order=0,
                 V0=0, F0=0)
        cases.append(dict(kind="binning-exhaustive", modes=["interp"],
                          grp="a", **{"in": c}))
    quick = tier == "quick"
    for i in range(500 if quick else 4000):
        fm = rng.choice([
            dict(prow=0.0, pcell=0.0, dtype="uint8"),
            dict(prow=0.5, pcell=0.0, dtype="uint8"),
            dict(prow=0.85, pcell=0.0, dtype="bool"),
            dict(prow=0.5, pcell=0.0, dtype="int32", val=2)])
        opts = ["uvw", "fr"] if fm["prow"] else rng.choice([[], ["uvw"]])
        nrow = rng.choice([1, 2, 3, 5, 8, 12, 20, 30])
        c = make(rng, nrow, opts, flagmode=fm)
        if rng.random() < 0.04 and c["nrow"] > 1:
            # duplicated (time, baseline)
            for k in ("t", "a1", "a2"):
                c[k][-1] = c[k][0]
        cases.append(dict(kind="binning-random", modes=["interp"], grp="b",
                          **{"in": c}))
    for i in range(3 if quick else 20):
        c = make(rng, rng.randint(120, 180), ["uvw"])
        cases.append(dict(kind="binning-large", modes=["interp"], grp="b",
                          **{"in": c}))
    for g in range(2 if quick else 4):
        fm = dict(prow=0.6 if g % 2 else 0.0, pcell=0.0,
                  dtype="uint8" if g < 2 else "bool")
        for i in range(60 if quick else 300):
            c = make(rng, rng.choice([1, 2, 5, 9, 16, 30]),
                     ["uvw", "fr"] if g % 2 else ["uvw"], flagmode=fm)
            c.update(fdt="float64" if g < 2 else "float32", lay="C",
                     order=0, vdt="complex64", V0=0)
            if c["fdt"] == "float32":
                c["T0"] = min(c["T0"], 100)
            cases.append(dict(kind="binning-compiled", modes=["jit"],
                              grp="g%d" % g, **{"in": c}))
    return cases


def execute(case, mode):
    return _exec(case, mode)
