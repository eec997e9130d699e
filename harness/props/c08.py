"""C08: applying, removing and subtracting gains."""
from tile import spread
from props.calcommon import *  # noqa: F401,F403
from props.calcommon import make, execute  # noqa: F401


def gen(rng, tier, emitted):
    cases = []
    quick = tier == "quick"

    def add(kind, modes, grp, c):
        cases.append(dict(kind=kind, modes=modes, grp=grp, **{"in": c}))
    FN = ["corrupt", "residual", "correct", "compute"]
    lines = [x for _, em in emitted for x in em]
    rng.shuffle(lines)
    for i, x in enumerate(lines[:84 if quick else 400]):
        add("chunking-from-spec", ["interp"], "s",
            make(rng, FN[i % 4], dask=True, x=x))
    for i in range(25 if quick else 250):
        for fn in FN:
            for m in (0, 1, 2):
                add(fn, ["interp"], "n", make(rng, fn, cmode=m))
    for i in range(12 if quick else 120):
        for fn in FN:
            for m in (0, 1, 2):
                add(fn + "-dask", ["interp"], "d",
                    make(rng, fn, cmode=m, dask=True))
    for fn in FN:
        for bad in ("ant", "dirJ", "dirM"):
            if bad == "dirM" and fn == "correct":
                continue
            c = make(rng, fn, dask=True, ndir=2)
            c.update(bad=bad, must="ValueError")
            add("bad-chunks", ["interp"], "b", c)
    for i in range(4):
        c = make(rng, "correct", ndir=2, dask=i % 2 == 1)
        c.update(must="ValueError")
        add("correct-directions", ["interp", "jit"], "z%d" % (i % 2), c)
    for i in range(40 if quick else 400):
        n = rng.randint(1, 6)
        t = [rng.randint(0, 3) for _ in range(rng.randint(1, 12))]
        if rng.random() < 0.6:
            t.sort()
        add("chunkify", ["interp"], "c",
            dict(fn="chunkify", time=[v * n for v in t],
                 per=rng.randint(1, 5)))
    for fn in FN:
        for m in (0, 1, 2):
            for i in range(5 if quick else 60):
                c = make(rng, fn, cmode=m, dask=m == i % 3 and i > 2)
                c.update(dts=["complex128"]*3, lay="C")
                if "fdt" in c:
                    c["fdt"] = "bool"
                add("compiled", ["jit"], "%s%d" % (fn, m), c)
    def once(c):
        return len(c["tbc"]) == 1 and c["nrow"] > 0
    axes = [dict(axes=[["J", 2], ["M", 1], ["V", 1], ["F", 1], ["fm", 0]],
                 out=[["val", 1]], count=["nchan"], chs="cch"),
            dict(axes=[[x, 0] for x in ("a1", "a2", "M", "V", "F")],
                 out=[["val", 0]], count=["nrow", "tbc"], chs="rch",
                 one=True, when=once)]
    rows = dict(axes[1], axes=[[x, 0] for x in ("a1", "a2", "uvw")])
    spread(rng, cases, 40 if tier == "quick" else 300, dict(
        corrupt=axes, residual=axes, correct=axes,
        compute=[axes[0], rows]), (17, 33, 65))
    return cases
