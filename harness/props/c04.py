"""C04: predict_vis evaluates the measurement equation."""
from tile import spread
from props.predcommon import *  # noqa: F401,F403
from props.predcommon import make, COMBOS, execute  # noqa: F401

NPROC = {"jit": 5}


def gen(rng, tier, emitted):
    cases = []
    quick = tier == "quick"

    def add(kind, modes, grp, c):
        cases.append(dict(kind=kind, modes=modes, grp=grp, **{"in": c}))

    for i in range(25 if quick else 120):
        for combo in COMBOS:
            for corr in (1, 2, 4):
                add("predict", ["interp"], "i",
                    make(rng, combo, corr, same=rng.random() < 0.2))
    for i in range(4 if quick else 30):
        for combo in COMBOS:
            add("predict-precision", ["interp"], "i",
                make(rng, combo, rng.choice([1, 2, 4]), big=True))
    jit = [(1, 1, 1, 1), (1, 1, 0, 1), (1, 0, 1, 0), (0, 1, 1, 1),
           (0, 0, 1, 1), (1, 0, 0, 1), (1, 1, 0, 0), (0, 1, 0, 0)]
    for n, combo in enumerate(jit if quick else COMBOS):
        for corr in ((1, 4) if quick else (1, 2, 4)):
            if quick and corr == 1 and n % 2:
                continue
            for i in range(8 if quick else 40):
                c = make(rng, combo, corr, big=i % 3 == 0)
                c.update(dts=["complex128"]*4, lay="C", idt="int32", seed=1)
                add("predict-compiled", ["jit"], "%s%d" % (combo, corr), c)
    for i in range(20 if quick else 100):
        c = make(rng, (0, 0, 1, 1), rng.choice([1, 2, 4]))
        c["func"] = "apply_gains"
        add("apply-gains", ["interp"], "g", c)
    spread(rng, cases, 60 if tier == "quick" else 400, {None: [
        dict(axes=[["ti", 0], ["a1", 0], ["a2", 0], ["B", 0], ["X", 1]],
             out=[["vis", 0]], count=["nrow"], chs="rch"),
        dict(axes=[["E1", 0], ["E2", 0], ["X", 0]], count=["nsrc"],
             fill=[["E1", 0, None], ["X", 0, None]])]})
    return cases
