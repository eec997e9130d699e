"""C06: phase delay, feed rotation, source transform, parallactic angles."""
from tile import spread
from props.skycommon import *  # noqa: F401,F403
from props.skycommon import (phase, feed, transform, parangle,  # noqa: F401
                             execute)

NPROC = {"jit": 4}


def gen(rng, tier, emitted):
    cases = []
    quick = tier == "quick"
    k = 1 if quick else 8

    def add(kind, modes, grp, c):
        if c["fn"] == "phase":
            f32 = "float32" in c["dts"]
            c["tol"] = 40 if f32 else 4
            if f32 and c["dts"][0] == "float64":
                # keep the phase small when any operand is single precision
                c["uvw"] = [[x % 4 - 2 for x in r] for r in c["uvw"]]
                c["freq"] = [min(x, 3) for x in c["freq"]]
                c["src"] = [[0, 0, 1, 1] if s[3] > 3 else s
                            for s in c["src"]]
                c["D"] = 3
        elif c["fn"] == "feed":
            c["tol"] = 2
        elif c["fn"] == "transform":
            c["tol"] = 2
        cases.append(dict(kind=kind, modes=modes, grp=grp, **{"in": c}))

    for dask in (False, True):
        d = "-chunked" if dask else ""
        for i in range(150*k):
            add("phase" + d, ["interp"], "p",
                phase(rng, dask, f32=i % 4 == 0))
        for i in range(80*k):
            add("feed" + d, ["interp"], "f", feed(rng, dask))
        for i in range(80*k):
            add("transform" + d, ["interp"], "t", transform(rng, dask))
        for i in range(25*k):
            add("parangle" + d, ["interp"], "q", parangle(rng, "test", dask))
        for i in range(10*k):
            add("parangle-casa" + d, ["jit"], "q",
                parangle(rng, "casa", dask))
        for i in range(0 if dask else 10*k):
            add("parangle-astropy", ["jit"], "q",
                parangle(rng, "astropy", False))
        for i in range(6):
            c = feed(rng, dask)
            c["must"] = "ValueError"
            if i % 2:
                c["feed"] = "elliptical"
            else:
                c["feed"] = "linear"
            add("feed-invalid" + d, ["interp"], "f", c)
        for i in range(2):
            c = parangle(rng, "test", dask)
            c.update(backend="nosuch", must="ValueError")
            add("parangle-invalid" + d, ["interp"], "q", c)
    for i in range(3):
        c = phase(rng)
        c["conv"] = "nosuch"
        add("phase-invalid", ["interp"], "p", c)
    for i in range(30*k):
        c = phase(rng)
        c.update(dts=["float64"]*3, lay="C")
        add("phase-compiled", ["jit"], "p", c)
        c = phase(rng, f32=True)
        c.update(lay="C")
        add("phase-compiled", ["jit"], "p32", c)
        c = feed(rng)
        c.update(lay="C")
        add("feed-compiled", ["jit"], "f", c)
        c = transform(rng)
        c.update(lay="C")
        add("transform-compiled", ["jit"], "t", c)
    v = "v"
    spread(rng, cases, 60*k, dict(
        phase=[dict(axes=[["src", 0]], out=[[v, 0]], chs=0),
               dict(axes=[["uvw", 0]], out=[[v, 1]], chs=1),
               dict(axes=[["freq", 0]], out=[[v, 2]], chs=2)],
        transform=[
            dict(axes=[["lm", 0]], out=[[v, 1]], chs=0, count=["nsrc"]),
            dict(axes=[["ang", 0], ["pe", 0]], out=[[v, 2]], chs=1,
                 count=["ntime"]),
            dict(axes=[["ang", 1], ["pe", 1], ["sc", 0]], out=[[v, 3]],
                 chs=2, count=["nant"]),
            dict(axes=[["freq", 0], ["sc", 1]], out=[[v, 4]], chs=3,
                 count=["nchan"])]))
    flat = [dict(x, **{"in": dict(x["in"], shape=[len(x["in"]["ang"])],
                                  chs=[[len(x["in"]["ang"])]])})
            for x in cases if x["in"]["fn"] == "feed"]
    flat = flat[:200]
    n = len(flat)
    cases += spread(rng, flat, 16*k, dict(feed=[
        dict(axes=[["ang", 0]], out=[[v, 0]], chs=0, count=["shape"])]))[n:]
    return cases
