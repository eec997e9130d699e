"""C07: beam cube interpolation and Zernike beams."""
from tile import spread
from props.skycommon import *  # noqa: F401,F403
from props.skycommon import beam, zernike, execute  # noqa: F401

NPROC = {"jit": 4}


def gen(rng, tier, emitted):
    cases = []
    quick = tier == "quick"
    k = 1 if quick else 8

    def add(kind, modes, grp, c):
        cases.append(dict(kind=kind, modes=modes, grp=grp, **{"in": c}))

    for i in range(260*k):
        add("beam", ["interp"], "b", beam(rng))
    for i in range(120*k):
        add("beam-chunked", ["interp"], "b", beam(rng, True))
    for i in range(60*k):
        c = beam(rng)
        c.update(dt="complex128", lay="C")
        while len(c["shape"]) != 2:
            c = beam(rng)
            c.update(dt="complex128", lay="C")
        c["tol"] = 3
        add("beam-compiled", ["jit"], "b", c)
    for i in range(6):
        c = beam(rng)
        c.update(must="ValueError", lay="C")
        w = i % 3
        if w == 0:
            c["beam"] = c["beam"][:1]
            c["lw"] = 1
        elif w == 1:
            c["beam"] = [r[:1] for r in c["beam"]]
            c["mh"] = 1
        else:
            c["beam"] = [[x[:1] for x in r] for r in c["beam"]]
            c["fmap"] = c["fmap"][:1]
        add("beam-degenerate", ["interp"], "b", c)
    for i in range(90*k):
        add("zernike", ["jit"], "z", zernike(rng))
    for i in range(30*k):
        add("zernike-chunked", ["jit"], "z", zernike(rng, True))
    v = "v"
    axes = [
        dict(axes=[["lm", 0]], out=[[v, 0]], chs=0, count=["nsrc"]),
        dict(axes=[["ang", 0], ["pe", 0]], out=[[v, 1]], chs=1,
             count=["ntime"]),
        dict(axes=[["ang", 1], ["pe", 1], ["sc", 0]], out=[[v, 2]],
             chs=2, count=["nant"]),
        dict(axes=[["freq", 0], ["pe", 2], ["sc", 1]], out=[[v, 3]],
             chs=3, count=["nchan"])]
    zern = [
        dict(axes=[["xy", 0]], out=[[v, 0]], chs=0, count=["nsrc"]),
        dict(axes=[["xy", 1]], out=[[v, 1]], chs=1, count=["ntime"]),
        dict(axes=[["xy", 2], ["noll", 0], ["coef", 0]], out=[[v, 2]],
             chs=2, count=["nant"]),
        dict(axes=[["xy", 3], ["noll", 1], ["coef", 1]], out=[[v, 3]],
             chs=3, count=["nchan"])]
    spread(rng, cases, 36*k, dict(beam=axes, zernike=zern), (17, 33, 70))
    return cases
