"""C11: gridding and degridding with the w-gridder."""
from tile import spread
from props.dftcommon import *  # noqa: F401,F403
from props.dftcommon import LMN, INVN, arr, split

NPROC = {"interp": 8}
# others could send the library out of bounds
BESIDE_KEYS = ("im", "vis", "wgt", "use", "noeps", "eps", "accum", "wst")
# pixels (offsets from the centre, cell 0.05) with rational n
NICE = [p for p in LMN if p[0] % 5 == 0 and p[1] % 5 == 0 and
        -20 <= p[0] <= 15 and -20 <= p[1] <= 15]


def make(rng, fn, dask=False, x=None):
    """x: emitted {bands, bch, rch, base}."""
    if x is None:
        nchan = rng.choice([1, 2, 3, 4])
        bands = split(rng, nchan, rng.randint(1, 3))
        x = dict(bands=bands, base=rng.choice([0, 0, 2]),
                 bch=split(rng, len(bands), rng.randint(1, 2)) if dask
                 else [len(bands)],
                 rch=split(rng, 4, rng.randint(1, 3)) if dask
                 else [rng.choice([1, 3, 5])])
    bands, bch, rch = x["bands"], x["bch"], x["rch"]
    nchan, nband, nrow = sum(bands), len(bands), sum(rch)
    cch, o = [], 0
    for n in bch:
        cch.append(sum(bands[o:o+n]))
        o += n
    band = [b + 1 for b, n in enumerate(bands) for _ in range(n)]
    far = rng.random() < 0.5
    wst = rng.random() < 0.7
    c = dict(fn=fn, nrow=nrow, nchan=nchan, ncorr=1, nband=nband, band=band,
             bands=bands, bch=bch, rch=rch, cch=cch, base=x["base"],
             wsign=-1, conv=1, fm=[rng.randint(1, 3) for _ in range(nchan)],
             must="", dask=dask, far=far, wst=wst, S=1000)
    c["fm"].sort()
    c["sameband"] = False
    if far:
        c.update(nx=32, ny=32, cellx=50000, celly=50000, nocelly=True)
        px = rng.sample(NICE, min(len(NICE), rng.randint(2, 6)))
        c["pix"] = [[16 + p[0]*4//5, 16 + p[1]*4//5] for p in px]
        c["px"] = [[p[0], p[1], p[2] - 25 if wst else 0,
                    INVN[p[2]] if wst else 12] for p in px]
        c["uvw"] = [[rng.randint(-1, 1), rng.randint(-1, 1),
                     rng.randint(-2, 2)] for _ in range(nrow)]
    else:
        c.update(nx=rng.choice([16, 18, 32]), ny=rng.choice([16, 18, 24]),
                 cellx=rng.choice([50, 100]), celly=rng.choice([50, 100]))
        c["nocelly"] = c["cellx"] == c["celly"] and rng.random() < 0.5
        pix = set()
        while len(pix) < 8:
            pix.add((rng.randrange(c["nx"]), rng.randrange(c["ny"])))
        pix |= {(0, 0), (c["nx"]//2, c["ny"]//2)}
        pix = sorted(pix)
        c["pix"] = [list(p) for p in pix]
        c["px"] = [[p[0] - c["nx"]//2, p[1] - c["ny"]//2, 0, 12]
                   for p in pix]
        c["uvw"] = [[rng.randint(-2, 2), rng.randint(-2, 2), 0]
                    for _ in range(nrow)]
    nsrc = len(c["px"])
    if fn != "dirty":
        c["im"] = arr((nsrc, nband, 1), lambda: [rng.randint(-3, 3), 0])
    if fn in ("dirty", "residual"):
        c["vis"] = arr((nrow, nchan, 1), lambda: [rng.randint(-3, 3),
                                                  rng.randint(-3, 3)])
    c["hasW"] = rng.random() < 0.5
    if c["hasW"]:
        c["wgt"] = arr((nrow, nchan), lambda: rng.choice([0, 1, 1, 2, 3]))
    c["hasF"] = rng.random() < 0.5
    if c["hasF"]:
        c["use"] = arr((nrow, nchan), lambda: int(rng.random() < 0.7))
        c["fdt"] = "uint8"
    c["prec"] = rng.choice(["single", "double"])
    c["eps"] = "1e-5" if c["prec"] == "single" else \
        rng.choice(["1e-5", "1e-7"])
    c["noeps"] = rng.random() < 0.3
    c["threads"] = rng.choice([1, 1, 2, 0])
    c["accum"] = rng.random() < 0.3
    # magnitude bound: samples x weight x amplitude
    big = 3*2*nrow*nchan*3*2
    if fn in ("residual", "hessian"):
        big *= 4*nsrc
    c["tol"] = 2 + (big//50 if c["eps"] == "1e-5" or c["noeps"] else 0)
    c["seed"] = rng.randint(0, 10**6)
    # chunks of the image itself
    c["cut"] = [rng.randint(1, n - 1) if n > 1 and rng.random() < 0.3 else 0
                for n in (c["nx"], c["ny"])]
    c["twice"] = rng.random() < 0.3
    return c


def gen(rng, tier, emitted):
    cases = []
    quick = tier == "quick"

    def add(kind, modes, grp, c):
        cases.append(dict(kind=kind, modes=modes, grp=grp, **{"in": c}))
    FN = ["model", "dirty", "residual", "hessian"]
    lines = [x for _, em in emitted for x in em]
    rng.shuffle(lines)
    for i, x in enumerate(lines[:240 if quick else 2000]):
        add("chunks-from-spec", ["interp"], "s",
            make(rng, FN[i % 4], dask=True, x=x))
    for i in range(60 if quick else 600):
        for fn in FN:
            add(fn, ["interp"], "n", make(rng, fn))
            add(fn + "-dask", ["interp"], "d", make(rng, fn, dask=True))
    rows = dict(axes=[["uvw", 0], ["vis", 0], ["wgt", 0], ["use", 0]],
                chs="rch", count=["nrow"])
    # rows of no weight add nothing
    lost = dict(rows, fill=[["wgt", 0, None]], when=lambda c: c["hasW"])
    spread(rng, cases, 40 if quick else 300, dict(
        model=[dict(rows, out=[["vis", 0]])],
        dirty=[dict(rows, fill=[["vis", 0, None]]), lost],
        residual=[lost], hessian=[lost]))
    return cases


def execute(case, mode):
    import numpy as np
    from enc import fx, snapshot, same
    lightspeed = 299792458.0
    c = case["in"]
    rdt, cdt = {"single": ("f4", "c8"), "double": ("f8", "c16")}[c["prec"]]
    cx, cy = c["cellx"]*1e-6, c["celly"]*1e-6
    f0 = 1e9
    if c["far"]:
        su = sv = 25/4*lightspeed/f0
    else:
        su, sv = lightspeed/f0/4/cx, lightspeed/f0/4/cy
    sw = 25/4*lightspeed/f0
    uvw = np.array(c["uvw"])*np.array([su, sv, sw])
    freq = np.array(c["fm"])*f0
    bi = (np.cumsum([0] + c["bands"])[:-1] + c["base"]).astype(np.int32)
    bc = np.array(c["bands"], np.int32)
    kw = {}
    if c["hasW"]:
        kw["weights"] = np.array(c["wgt"]).astype(rdt)
    if c["hasF"]:
        kw["flag"] = np.array(c["use"]).astype(c["fdt"])
    if not c["nocelly"]:
        kw["celly"] = cy
    if not c["noeps"]:
        kw["epsilon"] = float(c["eps"])
    if c["threads"] != 1:
        kw["nthreads"] = c["threads"]
    if not c["wst"]:
        kw["do_wstacking"] = False
    if c["accum"] and c["fn"] != "model":
        kw["double_accum"] = True
    im = vis = None
    if "im" in c:
        im = np.zeros((c["nband"], c["nx"], c["ny"]), rdt)
        for (i, j), v in zip(c["pix"], c["im"]):
            for b in range(c["nband"]):
                im[b, i, j] = v[b][0][0]
    if "vis" in c:
        v = np.array(c["vis"], float)[:, :, 0]
        vis = (v[..., 0] + 1j*v[..., 1]).astype(cdt)
    arrs = [a for a in (uvw, freq, im, vis, bi, bc, kw.get("weights"),
                        kw.get("flag")) if a is not None]
    snap = snapshot(arrs)
    o = dict(meta_ok=True)
    if c["dask"]:
        import dask.array as da
        import sched
        import africanus.gridding.wgridder.dask as mod
        rch, cch, bch = (tuple(c[k]) for k in ("rch", "cch", "bch"))

        def d(a, *ch):
            return da.from_array(a, chunks=ch, name=False)
        nx, ny = (c["nx"],), (c["ny"],)
        pos = [d(uvw, rch, (3,)), d(freq, cch)]
        if im is not None:
            pos.append(d(im, bch, *((k, n - k) if k else (n,) for k, n in
                                    zip(c["cut"], (c["nx"], c["ny"])))))
        if vis is not None:
            pos.append(d(vis, rch, cch))
        pos += [d(bi, bch), d(bc, bch)]
        for k in ("weights", "flag"):
            if k in kw:
                kw[k] = d(kw[k], rch, cch)
        if c["fn"] == "dirty":
            pos += [c["nx"], c["ny"]]
        z = getattr(mod, c["fn"])(*pos, cx, **kw)
        v, = sched.compute([z], c["seed"], twice=c["twice"],
                           optimize=c["seed"] % 2 == 0)
        want = (rch, cch) if c["fn"] == "model" else (bch, nx, ny)
        o["meta_ok"] = bool(z.dtype == v.dtype and z.shape == v.shape and
                            z.chunks[:len(want) - 2*(len(want) > 2)]
                            == want[:len(want) - 2*(len(want) > 2)])
    else:
        import africanus.gridding.wgridder as mod
        pos = [a for a in (uvw, freq, im, vis, bi, bc) if a is not None]
        if c["fn"] == "dirty":
            pos += [c["nx"], c["ny"]]
        v = getattr(mod, c["fn"])(*pos, cx, **kw)
    exp = cdt if c["fn"] == "model" else rdt
    o["dtype_ok"] = bool(v.dtype == np.dtype(exp))
    o["inputs_ok"] = same(snap, arrs)
    if c["fn"] == "model":
        o["vis"] = [[[p] for p in r] for r in fx(v, c["S"])]
    else:
        o["im"] = [[[x] for x in fx(v[:, i, j], c["S"])]
                   for i, j in c["pix"]] \
            if v.shape == (c["nband"], c["nx"], c["ny"]) else []
    return o
