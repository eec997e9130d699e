"""C29: chunked gridding and degridding through the NIFTY gridder."""
from props.skycommon import split

TRACE = "NiftyTrace"
MC = [dict(module="NiftyMC", cfg="NiftyMC.cfg", workers=4)]
MC_THOROUGH = [dict(module="NiftyMC", cfg="NiftyMC_thorough.cfg", workers=8)]
NPROC = {"interp": 4}
FAR = 10**6


def BESIDE(c):
    return c["fn"] != "config"


def make(rng, fn):
    ri = rng.randint
    nx, ny = ri(1, 4), ri(1, 4)
    nrow, nchan, ncorr = ri(1, 9), ri(1, 3), ri(1, 4)
    pflag = rng.choice([0, 0.3, 0.8])

    def arr(shape, f):
        if not shape:
            return f()
        return [arr(shape[1:], f) for _ in range(shape[0])]
    c = dict(fn=fn, nx=nx, ny=ny, nrow=nrow, nchan=nchan, ncorr=ncorr,
             cs=[ri(1, 3), ri(1, 3)], eps=rng.choice([1, 5, 20]),
             uvw=[[ri(-9, 9), ri(-9, 9), ri(-5, 5)] for _ in range(nrow)],
             freq=[ri(1, 4) for _ in range(nchan)],
             flag=arr((nrow, nchan, ncorr),
                      lambda: int(rng.random() < pflag)),
             w=rng.choice([[-FAR, FAR]]*3 + [[-3, 4], [0, FAR], [-FAR, 2]]),
             rch=split(rng, nrow, ri(1, 6)),
             cch=split(rng, ncorr, ri(1, 2)),
             streams=rng.choice([0, 0, 1, 2, 3, 4, 9]),
             lay=rng.choice(["C", "C", "strided", "F"]),
             seed=ri(0, 10**6), must="")
    if fn == "grid":
        c["vis"] = arr((nrow, nchan, ncorr), lambda: [ri(-9, 9), ri(-9, 9)])
        c["wgt"] = arr((nrow, nchan, ncorr), lambda: ri(0, 4))
    elif fn == "degrid":
        c["img"] = arr((nx, ny, ncorr), lambda: ri(-9, 9))
        c["cplx"] = rng.random() < 0.4
    if fn in ("grid", "degrid") and nchan > 1 and rng.random() < 0.04:
        c["must"] = "ValueError"
    return c


def gen(rng, tier, emitted):
    cases = []
    k = 1 if tier == "quick" else 10
    for fn, n in (("grid", 300), ("degrid", 180), ("config", 60)):
        for i in range(n*k):
            cases.append(dict(kind=fn, modes=["interp"], grp="",
                              **{"in": make(rng, fn)}))
    return cases


def execute(case, mode):
    import fakenifty
    fakenifty.install()
    import numpy as np
    import dask.array as da
    import sched
    from enc import fx, layout, snapshot, same
    from africanus.gridding.nifty import dask as nd
    c = case["in"]
    eps = c["eps"]*1e-13
    args = c["nx"], c["ny"], eps, float(c["cs"][0]), float(c["cs"][1])
    gc = sched.shared(args, lambda: nd.grid_config(*args))
    if c["fn"] == "config":
        return config(c, gc, nd, eps)
    nr, nf, nc = c["nrow"], c["nchan"], c["ncorr"]
    S = (nr, nf, nc)
    uvw = layout(np.array(c["uvw"], float), c["lay"])
    freq = np.array(c["freq"], float)
    flag = layout(np.array(c["flag"]).reshape(S) != 0, c["lay"])
    rch, cch = tuple(c["rch"]), tuple(c["cch"])
    fch = (1,)*nf if c["must"] else (nf,)
    D = dict(uvw=da.from_array(uvw, chunks=(rch, 3), name=False),
             freq=da.from_array(freq, chunks=(fch,), name=False),
             flag=da.from_array(flag, chunks=(rch, nf, cch), name=False))
    kw = {} if abs(c["w"][0]) == abs(c["w"][1]) else \
        dict(wmin=float(c["w"][0]), wmax=float(c["w"][1]))
    if c["fn"] == "grid":
        v = np.array(c["vis"], float)
        vis = layout((v[..., 0] + 1j*v[..., 1]).reshape(S), c["lay"])
        wgt = layout(np.array(c["wgt"], float).reshape(S), c["lay"])
        ins = [uvw, freq, flag, vis, wgt]
        snap = snapshot(ins)
        if c["streams"]:
            kw["streams"] = c["streams"]
        g = nd.grid(da.from_array(vis, chunks=(rch, nf, cch), name=False),
                    D["uvw"], D["flag"],
                    da.from_array(wgt, chunks=(rch, nf, cch), name=False),
                    D["freq"], gc, **kw)
        d = nd.dirty(g, gc)
        a, b = sched.compute([g, d], c["seed"],
                             twice=not c["streams"] and c["seed"] % 3 == 0,
                             optimize=c["seed"] % 2 == 0)
        out = dict(a=fx(np.moveaxis(a, 2, 0)), b=fx(np.moveaxis(b, 2, 0)),
                   meta_ok=bool(g.dtype == a.dtype and d.dtype == b.dtype and
                                g.shape == a.shape and d.shape == b.shape))
    else:
        img = np.array(c["img"], float)
        img = layout(img.astype(complex) if c["cplx"] else img, c["lay"])
        wgt = np.ones(S)
        ins = [uvw, freq, flag, img]
        snap = snapshot(ins)
        m = nd.model(da.from_array(img, chunks=(c["nx"], c["ny"], cch),
                                   name=False), gc)
        v = nd.degrid(m, D["uvw"], D["flag"],
                      da.from_array(wgt, chunks=(rch, nf, cch), name=False),
                      D["freq"], gc, **kw)
        a, b = sched.compute([m, v], c["seed"], twice=c["seed"] % 3 == 0,
                             optimize=c["seed"] % 2 == 0)
        out = dict(a=fx(np.moveaxis(a, 2, 0)), b=fx(b.astype(complex)),
                   meta_ok=bool(m.dtype == a.dtype and v.dtype == b.dtype and
                                m.shape == a.shape and v.shape == b.shape))
    out["inputs_ok"] = same(snap, ins)
    return out


def config(c, gc, nd, eps):
    """A configuration survives pickling and is identified by its values."""
    import copy
    import pickle
    from dask.base import tokenize
    want = (c["nx"], c["ny"], eps, float(c["cs"][0]), float(c["cs"][1]))

    def got(x):
        g = x.object
        return (g.Nxdirty(), g.Nydirty(), g.Epsilon(), g.Pixsize_x(),
                g.Pixsize_y())
    p = pickle.loads(pickle.dumps(gc))
    q = copy.deepcopy(p)
    other = list(want)
    k = c["seed"] % 5
    other[k] *= 2
    return dict(values=bool(got(gc) == want),
                pickled=bool(got(p) == want and got(q) == want),
                same_token=bool(tokenize(gc) == tokenize(p)),
                other_token=bool(tokenize(gc) !=
                                 tokenize(nd.grid_config(*other))))
