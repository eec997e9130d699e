"""Calibration cases: generation (stdlib) and execution."""
TRACE = "CalibTrace"
MC = [dict(module="CalibMC", cfg="CalibMC.cfg", workers=4)]
MC_THOROUGH = [dict(module="CalibMC", cfg="CalibMC_thorough.cfg", workers=8)]
LMN = [[0, 0, 25], [15, 0, 20], [0, 15, 20], [-15, 0, 20], [9, 12, 20],
       [-9, 12, 20], [20, 0, 15], [0, -20, 15], [12, 16, 15], [16, -12, 15]]


def arr(shape, f):
    return f() if not shape else [arr(shape[1:], f) for _ in range(shape[0])]


def split(rng, n, k):
    k = max(1, min(k, n))
    cuts = sorted(rng.sample(range(1, n), k - 1)) if k > 1 else []
    return [b - a for a, b in zip([0] + cuts, cuts + [n])]


def cdet(g):
    def mul(a, b):
        return (a[0]*b[0]-a[1]*b[1], a[0]*b[1]+a[1]*b[0])
    x, y = mul(g[0], g[3]), mul(g[1], g[2])
    return (x[0]-y[0], x[1]-y[1])


def make(rng, fn, cmode=None, dask=False, x=None, auto=True, ndir=None):
    """x: an emitted chunking {tbc, tch, base}."""
    cmode = rng.choice([0, 0, 1, 2]) if cmode is None else cmode
    ncorr = rng.choice([1, 2, 2, 4]) if cmode == 0 else 4
    jc = {0: ncorr, 1: 2, 2: 4}[cmode]
    nant = rng.randint(2, 4)
    nchan = rng.choice([1, 2, 3])
    if ndir is None:
        ndir = 1 if fn == "correct" else rng.choice([1, 1, 2, 3])
    if x is None:
        nt = rng.randint(1, 4)
        x = dict(tbc=[rng.randint(1, 4) for _ in range(nt)],
                 tch=split(rng, nt, rng.randint(1, 3)) if dask else [nt],
                 base=rng.choice([0, 0, 5]))
    tbc, tch = list(x["tbc"]), list(x["tch"])
    nt, nrow = len(tbc), sum(tbc)
    o, rch = 0, []
    for n in tch:
        rch.append(sum(tbc[o:o+n]))
        o += n
    a1, a2 = [], []
    for _ in range(nrow):
        p, q = rng.sample(range(nant), 2)
        if auto and rng.random() < 0.1:
            q = p
        a1.append(p)
        a2.append(q)

    def g3():
        return [rng.randint(-3, 3), rng.randint(-3, 3)]

    def gain():
        while True:
            g = [[rng.randint(-2, 2), rng.randint(-2, 2)] for _ in range(jc)]
            if fn != "correct":
                return g
            if cmode == 2 and cdet(g) != (0, 0):
                return g
            if cmode != 2 and all(z != [0, 0] for z in g):
                return g
    c = dict(fn=fn, cmode=cmode, ncorr=ncorr, nant=nant, nchan=nchan,
             ndir=ndir, nrow=nrow, tbc=tbc, tch=tch, rch=rch, base=x["base"],
             a1=a1, a2=a2, must="", dask=dask,
             J=arr((nt, nant, nchan, ndir), gain),
             S=4096, tol=24)
    mrow = nt if fn == "compute" else nrow
    if fn != "correct":
        c["M"] = arr((mrow, nchan, ndir, ncorr), g3)
    if fn != "corrupt" and fn != "compute":
        c["V"] = arr((nrow, nchan, ncorr), g3)
        pf = rng.choice([0, 0.2, 0.5])
        c["F"] = arr((nrow, nchan, ncorr),
                     lambda: int(rng.random() < pf))
        c["fdt"] = rng.choice(["bool", "uint8", "int64"])
    if fn == "compute":
        c["lmn"] = arr((nt, ndir), lambda: rng.choice(LMN))
        c["uvw"] = arr((nrow, 3), lambda: rng.randint(-6, 6))
        c["fm"] = [rng.randint(1, 3) for _ in range(nchan)]
    d = rng.choice(["complex64", "complex128", "complex128"])
    c["dts"] = [d]*3
    if fn in ("corrupt", "residual", "correct") and rng.random() < 0.15:
        # mixed precisions
        c["dts"] = ["complex128", "complex128", "complex128"]
    c["lay"] = rng.choice(["C", "C", "strided"])
    c["cch"] = split(rng, nchan, rng.randint(1, 2)) if dask else [nchan]
    c["seed"] = rng.randint(0, 10**6)
    c["twice"] = rng.random() < 0.3
    c["bad"] = ""
    return c


def _arrays(c):
    import numpy as np
    from enc import layout
    nt = len(c["tbc"])
    vc = (2, 2) if c["cmode"] else (c["ncorr"],)
    jc = {0: (c["ncorr"],), 1: (2,), 2: (2, 2)}[c["cmode"]]

    def cplx(x, dt, corr):
        v = np.array(x, dtype=np.float64)
        v = (v[..., 0] + 1j*v[..., 1]).astype(dt)
        return layout(v.reshape(v.shape[:-1] + corr), c["lay"])
    d = {}
    off = np.cumsum([0] + c["tbc"])[:nt]
    d["tbi"] = (off + c["base"]).astype(np.int32)
    d["tbc"] = np.array(c["tbc"], np.int32)
    d["a1"] = np.array(c["a1"], np.int32)
    d["a2"] = np.array(c["a2"], np.int32)
    d["J"] = cplx(c["J"], c["dts"][0], jc)
    if "M" in c:
        d["M"] = cplx(c["M"], c["dts"][1], vc)
    if "V" in c:
        d["V"] = cplx(c["V"], c["dts"][2], vc)
        f = np.array(c["F"]).astype(c["fdt"])
        d["F"] = layout(f.reshape(f.shape[:-1] + vc), c["lay"])
    if "lmn" in c:
        lightspeed = 299792458.0
        rdt = np.float64
        d["lm"] = (np.array(c["lmn"])[..., :2] / 25.0).astype(rdt)
        # uvw in units of 25/4 wavelengths at fm = 1
        d["freq"] = np.array(c["fm"], rdt) * 1e9
        d["uvw"] = np.array(c["uvw"], rdt) * 25/4 * lightspeed / 1e9
    return d


ARGS = {"corrupt": ("tbi", "tbc", "a1", "a2", "J", "M"),
        "residual": ("tbi", "tbc", "a1", "a2", "J", "V", "F", "M"),
        "correct": ("tbi", "tbc", "a1", "a2", "J", "V", "F"),
        "compute": ("tbi", "tbc", "a1", "a2", "J", "M", "uvw", "freq", "lm")}
NAMES = {"corrupt": "corrupt_vis", "residual": "residual_vis",
         "correct": "correct_vis", "compute": "compute_and_corrupt_vis"}


def chunked(c, d, k):
    """dask array of d[k] in the chunks of the case."""
    import dask.array as da
    rch, tch, cch = tuple(c["rch"]), tuple(c["tch"]), tuple(c["cch"])
    a = d[k]
    full = tuple((n,) for n in a.shape)
    ch = {"tbi": (tch,), "tbc": (tch,), "a1": (rch,), "a2": (rch,),
          "J": (tch, full[1] if a.ndim > 1 else 0, cch) + full[3:],
          "M": ((tch if c["fn"] == "compute" else rch), cch) + full[2:],
          "V": (rch, cch) + full[2:], "F": (rch, cch) + full[2:],
          "uvw": (rch,) + full[1:], "freq": (cch,),
          "lm": (tch,) + full[1:]}[k]
    return da.from_array(a, chunks=ch, name=False)


def execute(case, mode):
    import numpy as np
    from enc import fx, snapshot, same
    c = case["in"]
    if c["fn"] == "chunkify":
        from africanus.calibration.utils import chunkify_rows
        ch, i, n = chunkify_rows(np.array(c["time"], np.float64), c["per"])
        return dict(chunks=[int(z) for z in ch], indices=[int(z) for z in i],
                    counts=[int(z) for z in n])
    d = _arrays(c)
    keys = ARGS[c["fn"]]
    args = [d[k] for k in keys]
    snap = snapshot(args)
    meta_ok = True
    if c["dask"]:
        import sched
        import africanus.calibration.utils.dask as mod
        dargs = [chunked(c, d, k) for k in keys]
        for j, k in enumerate(keys):
            if c["bad"] == "ant" and k == "J":
                dargs[j] = dargs[j].rechunk({1: 1})
            if c["bad"] == "dirJ" and k == "J":
                dargs[j] = dargs[j].rechunk({3: 1})
            if c["bad"] == "dirM" and k == "M":
                dargs[j] = dargs[j].rechunk({2: 1})
        z = getattr(mod, NAMES[c["fn"]])(*dargs)
        v, = sched.compute([z], c["seed"], twice=c["twice"],
                           optimize=c["seed"] % 2 == 0)
        corr = (2, 2) if c["cmode"] else (c["ncorr"],)
        meta_ok = bool(z.dtype == v.dtype and z.shape == v.shape and
                       z.chunks == (tuple(c["rch"]), tuple(c["cch"])) +
                       tuple((n,) for n in corr))
    else:
        import africanus.calibration.utils as mod
        v = getattr(mod, NAMES[c["fn"]])(*args)
    exp = d["V"] if "V" in d else d["J"] if c["fn"] == "compute" else d["M"]
    o = dict(dtype_ok=bool(v.dtype == exp.dtype), meta_ok=meta_ok,
             inputs_ok=same(snap, args))
    o["val"] = fx(v.reshape(v.shape[:2] + (-1,)), c["S"])
    return o
