"""C10: direct Fourier transforms between images and visibilities."""
from tile import spread
from props.dftcommon import *  # noqa: F401,F403
from props.dftcommon import LMN, arr, split


def make(rng, fn, dask=False, rch=None, cch=None):
    nsrc = rng.choice([1, 2, 3, 5])
    nchan = sum(cch) if cch else rng.choice([1, 2, 3])
    nrow = sum(rch) if rch else rng.choice([1, 2, 4, 6])
    ncorr = rng.choice([1, 2, 4])
    cimg = fn == "model" and rng.random() < 0.4
    px = [rng.choice(LMN) for _ in range(nsrc)]
    conv = rng.choice([1, -1])
    z = rng.choice([0, 0.3])

    def val(cplx):
        if rng.random() < z:
            return [0, 0]
        return [rng.randint(-3, 3), rng.randint(-3, 3) if cplx else 0]
    c = dict(fn=fn, nrow=nrow, nchan=nchan, ncorr=ncorr, nband=nchan,
             band=list(range(1, nchan + 1)), wsign=1, conv=conv,
             fm=[rng.randint(1, 3) for _ in range(nchan)],
             uvw=arr((nrow, 3), lambda: rng.randint(-6, 6)),
             lmn=px, px=[[p[0], p[1], p[2] - 25, 12] for p in px],
             hasW=False, hasF=False, S=1024, tol=12, must="", dask=dask,
             cimg=cimg)
    if fn == "model":
        c["im"] = arr((nsrc, nchan, ncorr), lambda: val(cimg))
    else:
        rv = rng.random() < 0.15
        c["rvis"] = rv
        c["vis"] = arr((nrow, nchan, ncorr), lambda: val(not rv))
        c["hasF"] = True
        pf = rng.choice([0, 0.2, 0.5])
        c["F"] = arr((nrow, nchan, ncorr), lambda: int(rng.random() < pf))
        c["use"] = [[int(not any(k)) for k in r] for r in c["F"]]
    c["prec"] = rng.choice(["single", "double", "double", "mixed"])
    c["tol"] = 60 if c["prec"] == "single" else 12
    c["dt"] = rng.choice(["none", "none", "single", "double"])
    c["convarg"] = {1: "fourier", -1: "casa"}[conv] if conv == -1 or \
        rng.random() < 0.7 else "default"
    c["lay"] = rng.choice(["C", "strided"])
    c["rch"] = rch or (split(rng, nrow, rng.randint(1, 3)) if dask
                       else [nrow])
    c["cch"] = cch or (split(rng, nchan, rng.randint(1, 2)) if dask
                       else [nchan])
    c["sch"] = split(rng, nsrc, rng.randint(1, 2)) \
        if dask and fn == "dirty" else [nsrc]
    c["kch"] = split(rng, ncorr, rng.randint(1, 2)) \
        if dask and fn == "model" else [ncorr]
    if dask and c["dt"] == "none" and rng.random() < 0.8:
        c["dt"] = "omit"
    elif dask and c["dt"] == "none":
        c["dt"] = "double"
    c["bad"] = ""
    c["seed"] = rng.randint(0, 10**6)
    c["twice"] = rng.random() < 0.3
    return c


def gen(rng, tier, emitted):
    cases = []
    quick = tier == "quick"

    def add(kind, modes, grp, c):
        cases.append(dict(kind=kind, modes=modes, grp=grp, **{"in": c}))
    lines = [x for _, em in emitted for x in em if x["base"] == 0]
    rng.shuffle(lines)
    for i, x in enumerate(lines[:100 if quick else 600]):
        for fn in ("model", "dirty"):
            add("chunks-from-spec", ["interp"], "s",
                make(rng, fn, dask=True, rch=x["rch"], cch=x["bands"]))
    for i in range(100 if quick else 1000):
        for fn in ("model", "dirty"):
            add(fn, ["interp"], "n", make(rng, fn))
            add(fn + "-dask", ["interp"], "d", make(rng, fn, dask=True))
    for i in range(4):
        for fn in ("model", "dirty"):
            c = make(rng, fn, dask=i % 2 == 1)
            c.update(convarg="bogus", must="ValueError")
            add("bad-convention", ["interp"], "x", c)
    for fn, bads in (("model", ("lm", "src", "freq")),
                     ("dirty", ("uvw", "freq", "flag"))):
        for bad in bads:
            while True:
                c = make(rng, fn, dask=True)
                if len(c["px"]) > 1 and c["nrow"] > 1 and c["nchan"] > 1 \
                        and len(set(c["rch"])) > 1 and len(c["cch"]) > 1:
                    break
            c.update(bad=bad, must="ValueError")
            add("bad-chunks", ["interp"], "b", c)
    for i in range(15 if quick else 150):
        for fn in ("model", "dirty"):
            c = make(rng, fn, dask=i % 5 == 4)
            c.update(prec="double", cimg=False, lay="C", rvis=False)
            if c["dt"] != "omit":
                c["dt"] = "none" if not c["dask"] else "double"
            if fn == "model":
                c["im"] = arr((len(c["px"]), c["nchan"], c["ncorr"]),
                              lambda: [rng.randint(-3, 3), 0])
            add("compiled", ["jit"], fn + str(c["dask"]), c)
    spread(rng, cases, 50 if quick else 400, dict(
        model=[dict(axes=[["uvw", 0]], out=[["vis", 0]], chs="rch",
                    count=["nrow"]),
               dict(axes=[["fm", 0], ["im", 1]], out=[["vis", 1]],
                    chs="cch", count=["nchan"]),
               dict(axes=[["lmn", 0], ["px", 0], ["im", 0]], chs="sch",
                    one=True, fill=[["im", 0, None]])],
        dirty=[dict(axes=[["lmn", 0], ["px", 0]], out=[["im", 0]],
                    chs="sch"),
               dict(axes=[["fm", 0], ["vis", 1], ["F", 1]],
                    out=[["im", 1]], chs="cch", count=["nchan"]),
               dict(axes=[["uvw", 0], ["vis", 0], ["F", 0]], chs="rch",
                    count=["nrow"], fill=[["vis", 0, None]])]),
        (33, 65, 130))
    return cases


def execute(case, mode):
    import numpy as np
    from enc import fx, layout, snapshot, same
    lightspeed = 299792458.0
    c = case["in"]
    idt = np.dtype({"single": "c8", "double": "c16", "mixed": "c8"}[c["prec"]])
    uvw = (np.array(c["uvw"]) * 25/4 * lightspeed / 1e9)
    lm = np.array(c["lmn"])[:, :2] / 25.0
    freq = np.array(c["fm"]) * 1e9
    if c["prec"] == "single":
        uvw, lm, freq = (a.astype(np.float32) for a in (uvw, lm, freq))
    uvw, lm, freq = (layout(a, c["lay"]) for a in (uvw, lm, freq))

    def cplx(x, dt):
        v = np.array(x, float)
        return layout((v[..., 0] + 1j*v[..., 1]).astype(dt), c["lay"])
    kw = {}
    if c["convarg"] != "default":
        kw["convention"] = c["convarg"]
    if c["fn"] == "model":
        X = cplx(c["im"], idt if c["cimg"] else "c16")
        if not c["cimg"]:
            X = layout(X.real.astype(np.float32 if c["prec"] != "double"
                                     else np.float64), c["lay"])
        flags = None
        if c["dt"] in ("single", "double"):
            kw["dtype"] = {"single": np.complex64,
                           "double": np.complex128}[c["dt"]]
            exp = np.dtype(kw["dtype"])
        else:
            exp = np.result_type(np.complex64, X.dtype, uvw.dtype)
    else:
        X = cplx(c["vis"], idt)
        if c["rvis"]:
            X = layout(X.real.copy(), c["lay"])
        flags = layout(np.array(c["F"]).astype(bool), c["lay"])
        if c["dt"] in ("single", "double"):
            kw["dtype"] = {"single": np.float32,
                           "double": np.float64}[c["dt"]]
            exp = np.dtype(kw["dtype"])
        else:
            exp = np.result_type(X.real.dtype, uvw.dtype)
    if c["dt"] == "none" and c["seed"] % 2:
        kw["dtype"] = None
    ins = [X, uvw, lm, freq] + ([flags] if flags is not None else [])
    snap = snapshot(ins)
    o = dict(meta_ok=True)
    if c["dask"]:
        import dask.array as da
        import sched
        from africanus.dft.dask import im_to_vis, vis_to_im
        rch, cch, sch, kch = (tuple(c[k]) for k in
                              ("rch", "cch", "sch", "kch"))

        def d(a, *ch):
            return da.from_array(a, chunks=ch, name=False)
        bad = c["bad"]
        n = len(c["px"])
        one = tuple([1]*n)
        nr, nc = c["nrow"], c["nchan"]
        dl = d(lm, one if bad == "lm" else sch, (2,))
        df = d(freq, (nc,) if bad == "freq" else cch)
        du = d(uvw, (nr,) if bad == "uvw" else rch, (3,))
        if c["fn"] == "model":
            z = im_to_vis(d(X, one if bad == "src" else sch, cch, kch), du,
                          dl, df, **kw)
            want = (rch, cch, kch)
        else:
            fl = d(flags, (nr,) if bad == "flag" else rch, cch,
                   (c["ncorr"],))
            z = vis_to_im(d(X, rch, cch, kch), du, dl, df, fl, **kw)
            want = (sch, cch, kch)
        v, = sched.compute([z], c["seed"], twice=c["twice"],
                           optimize=c["seed"] % 2 == 0)
        o["meta_ok"] = bool(z.dtype == v.dtype and z.shape == v.shape and
                            z.chunks == want)
        if c["dt"] == "omit":
            exp = np.dtype("c16" if c["fn"] == "model" else "f8")
    else:
        from africanus.dft import im_to_vis, vis_to_im
        v = im_to_vis(X, uvw, lm, freq, **kw) if c["fn"] == "model" else \
            vis_to_im(X, uvw, lm, freq, flags, **kw)
    o["dtype_ok"] = bool(v.dtype == exp)
    o["inputs_ok"] = same(snap, ins)
    o["vis" if c["fn"] == "model" else "im"] = fx(v, c["S"])
    return o
