"""C05: chunked prediction does not depend on chunks, streams or schedule."""
from tile import spread
from props.predcommon import *  # noqa: F401,F403
from props.predcommon import make, COMBOS, execute  # noqa: F401

NPROC = {"jit": 4}


def gen(rng, tier, emitted):
    cases = []
    quick = tier == "quick"

    def add(kind, modes, grp, c):
        cases.append(dict(kind=kind, modes=modes, grp=grp, **{"in": c}))

    lines = [x for _, em in emitted for x in em]
    for x in lines:
        # every chunking and reduction mode of the design model
        combo = rng.choice([k for k in COMBOS if k[0] or k[1]])
        c = make(rng, combo, rng.choice([1, 2, 4]), dask=True,
                 sch=x["sch"], rch_rows=x["rch"], same=rng.random() < 0.3)
        c["streams"] = "true" if x["mode"] == "chain" else \
            rng.choice(["none", "false"])
        add("chunks-from-spec", ["interp"], "s", c)
    for i in range(22 if quick else 150):
        for combo in COMBOS:
            add("chunked", ["interp"], "i",
                make(rng, combo, rng.choice([1, 2, 4]), dask=True,
                     same=rng.random() < 0.2, big=rng.random() < 0.25))
    for bad, combo in [("no-dde2", (1, 1, 0, 1)), ("no-die2", (1, 1, 1, 1)),
                       ("ant-split", (1, 0, 1, 0)),
                       ("ant-split", (0, 1, 0, 1)),
                       ("time-merge", (1, 1, 0, 0)),
                       ("time-merge", (0, 1, 1, 1))]:
        for corr in (1, 2, 4):
            while True:
                c = make(rng, combo, corr, dask=True)
                if c["nant"] > 1 and len(c["tch"]) > 1:
                    break
            c.update(bad=bad, must="ValueError")
            add("chunked-invalid", ["interp"], "x", c)
    for n, combo in enumerate([(1, 1, 1, 1), (0, 1, 0, 1), (1, 1, 0, 0),
                               (0, 0, 1, 1)]):
        for i in range(8 if quick else 60):
            c = make(rng, combo, 4, dask=True, big=i % 3 == 0)
            c.update(dts=["complex128"]*4, lay="C", idt="int32")
            add("chunked-compiled", ["jit"], "%s" % (combo,), c)
    spread(rng, cases, 40 if tier == "quick" else 300, {None: [
        dict(axes=[["E1", 3], ["E2", 3], ["X", 2], ["G1", 2], ["G2", 2],
                   ["B", 1]], out=[["vis", 1]], count=["nchan"],
             chs="cch"),
        dict(axes=[["E1", 0], ["E2", 0], ["X", 0]], count=["nsrc"],
             chs="sch", fill=[["E1", 0, None], ["X", 0, None]])]},
        (17, 33, 65))
    return cases
