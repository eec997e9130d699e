"""Averaging cases: generation (stdlib) and execution (numpy)."""
TRACE = "AvgTrace"
MC = [dict(module="AvgMC", cfg="AvgMC.cfg")]
MC_THOROUGH = [dict(module="AvgMC", cfg="AvgMC_thorough.cfg", workers=8)]

OPT = ["tc", "exp", "uvw", "w", "sig", "cf", "cw", "ebw", "res", "vis",
       "flag", "ws", "ss", "fr"]


def base_rows(rng, nrow, nant=3, tmax=12, hmax=3, regular=False):
    bls = [(p, q) for p in range(nant) for q in range(nant)]
    rng.shuffle(bls)
    nbl = max(1, rng.randint(1, min(len(bls), 6)))
    bls = bls[:nbl]
    while nbl * (tmax + 1) < nrow:
        tmax *= 2
    keys = [(t, b) for t in range(tmax + 1) for b in bls]
    if regular:
        h = rng.randint(1, hmax)
        ts = sorted({t for t, _ in keys})
        rows = [(2*h*t, h, b) for t in ts for b in bls][:nrow]
    else:
        rows = [(t, rng.randint(1, hmax), b)
                for t, b in rng.sample(keys, nrow)]
    if rng.random() < 0.6:
        rng.shuffle(rows)
    else:
        rows.sort(key=lambda r: (r[0], r[2]))
    off = rng.choice([0, 0, 1, 7])
    amul = rng.choice([1, 1, 1, 7, 300, 70000])
    return dict(nrow=len(rows), t=[r[0] for r in rows],
                h=[r[1] for r in rows],
                a1=[r[2][0]*amul + off for r in rows],
                a2=[r[2][1]*amul + off for r in rows])


def split(rng, n, k):
    k = min(k, n)
    cuts = sorted(rng.sample(range(1, n), k - 1)) if k > 1 else []
    return [b - a for a, b in zip([0] + cuts, cuts + [n])]


def columns(rng, c, opts, nchan, ncorr, flagmode, wmax=3, zero_w=False):
    n = c["nrow"]
    ri = rng.randint
    c["nchan"], c["ncorr"] = nchan, ncorr
    for o in OPT:
        c["has" + o] = o in opts
    if "tc" in opts:
        c["tc"] = [ri(0, 40) for _ in range(n)]
    if "exp" in opts:
        c["exp"] = [ri(0, 9) for _ in range(n)]
    if "uvw" in opts:
        c["uvw"] = [[ri(-99, 99) for _ in range(3)] for _ in range(n)]
    wlo = 0 if zero_w else 1
    if "w" in opts:
        c["w"] = [[ri(wlo, wmax) for _ in range(ncorr)] for _ in range(n)]
    if "sig" in opts:
        c["sig"] = [[ri(0, 4) for _ in range(ncorr)] for _ in range(n)]
    for o in ("cf", "cw", "ebw", "res"):
        if o in opts:
            c[o] = [ri(1, 50) for _ in range(nchan)]

    def cube(f):
        return [[[f() for _ in range(ncorr)] for _ in range(nchan)]
                for _ in range(n)]

    if "vis" in opts:
        c["vis"] = cube(lambda: [ri(-9, 9), ri(-9, 9)])
    if "ws" in opts:
        c["ws"] = cube(lambda: ri(wlo, wmax))
    if "ss" in opts:
        c["ss"] = cube(lambda: ri(0, 4))
    fv = 1 if flagmode["dtype"] == "bool" else flagmode.get("val", 1)
    rowf = [rng.random() < flagmode["prow"] for _ in range(n)]
    if "flag" in opts:
        fl = cube(lambda: fv if rng.random() < flagmode["pcell"] else 0)
        for r in range(n):
            if rowf[r]:
                fl[r] = [[fv if ri(0, 1) else 1 for _ in range(ncorr)]
                         for _ in range(nchan)]
        c["flag"] = fl
        rowf = [all(x for f in fl[r] for x in f) for r in range(n)]
    if "fr" in opts:
        c["fr"] = [fv if x else 0 for x in rowf]
        if flagmode.get("disagree") and n:
            k = ri(0, n - 1)
            c["fr"][k] = 0 if c["fr"][k] else 1
    c["flagdt"] = flagmode["dtype"]
    return c


def make(rng, nrow, opts, nchan=1, ncorr=1, flagmode=None, dask=False,
         regular=None, **kw):
    c = base_rows(rng, nrow, nant=rng.randint(1, 4),
                  tmax=rng.choice([3, 6, 12, 30]), hmax=rng.randint(1, 3),
                  regular=rng.random() < 0.4 if regular is None else regular)
    flagmode = flagmode or dict(prow=0.0, pcell=0.0, dtype="uint8")
    columns(rng, c, opts, nchan, ncorr, flagmode, **kw)
    c["tb"] = rng.choice([1, 2, 3, 4, 5, 6, 8, 12, 20, 100])
    c["cb"] = rng.choice([1, 1, 2, 3, 4, 5, nchan, nchan + 1])
    c["T0"] = rng.choice([0, 0, 100, 4861623])
    c["fdt"] = rng.choice(["float64", "float64", "float32"]) \
        if c["T0"] < 1000 else "float64"
    c["vdt"] = rng.choice(["complex64", "complex128"])
    c["lay"] = rng.choice(["C", "C", "C", "strided"])
    n = c["nrow"]
    c["rch"] = split(rng, n, rng.randint(1, 4)) if dask else [n]
    c["cch"] = split(rng, nchan, rng.randint(1, 3)) if dask and nchan > 0 \
        else [nchan]
    if not set(opts) & {"cf", "cw", "ebw", "res", "vis", "flag", "ws", "ss"}:
        c["nchan"], c["cch"] = 0, [0]
    c["dask"] = dask
    c["seed"] = rng.randint(0, 10**6)
    c["order"] = rng.choice([0, 1])
    # affine offsets of the averaged (not summed) columns: exact in double
    # precision only, so loss of precision shows
    big = c["fdt"] == "float64" and c["vdt"] == "complex128" and \
        not kw.get("zero_w") and rng.random() < 0.5
    c["V0"] = 2**30 if big else 0
    c["F0"] = rng.choice([0, 856000000])
    return c


S = 256


def execute(case, mode):
    import numpy as np
    from enc import fx, keep, layout, snapshot, same
    c = case["in"]
    f = np.dtype(c["fdt"])
    n, nchan, ncorr = c["nrow"], c["nchan"], c["ncorr"]

    def arr(x, dt, shape):
        return layout(np.array(x, dtype=np.float64 if dt != "c" else None)
                      .reshape(shape).astype(dt), c["lay"])

    T0, V0, F0 = c["T0"], c["V0"], c["F0"]
    a = {}
    a["time"] = arr([T0 + t/8. for t in c["t"]], f, (n,))
    a["interval"] = arr([h/4. for h in c["h"]], f, (n,))
    a["antenna1"] = arr(c["a1"], np.int32, (n,))
    a["antenna2"] = arr(c["a2"], np.int32, (n,))
    has = {o: c["has" + o] for o in OPT}
    if has["tc"]:
        a["time_centroid"] = arr([V0 + x for x in c["tc"]], f, (n,))
    if has["exp"]:
        a["exposure"] = arr(c["exp"], f, (n,))
    if has["uvw"]:
        a["uvw"] = arr(np.array(c["uvw"]) + V0, f, (n, 3))
    if has["w"]:
        a["weight"] = arr(c["w"], f, (n, ncorr))
    if has["sig"]:
        a["sigma"] = arr(c["sig"], f, (n, ncorr))
    for o, nm in (("cf", "chan_freq"), ("cw", "chan_width"),
                  ("ebw", "effective_bw"), ("res", "resolution")):
        if has[o]:
            a[nm] = arr(np.array(c[o]) + (F0 if o == "cf" else 0),
                        np.float64, (nchan,))
    sh = (n, nchan, ncorr)
    if has["vis"]:
        v = np.array(c["vis"], dtype=np.float64).reshape(sh + (2,))
        a["vis"] = layout((v[..., 0] + V0 + 1j*(v[..., 1] + V0)).astype(c["vdt"]),
                          c["lay"])
    if has["flag"]:
        a["flag"] = arr(c["flag"], np.dtype(c["flagdt"]), sh)
    if has["ws"]:
        a["weight_spectrum"] = arr(c["ws"], f, sh)
    if has["ss"]:
        a["sigma_spectrum"] = arr(c["ss"], f, sh)
    if has["fr"]:
        a["flag_row"] = arr(c["fr"], np.dtype(c["flagdt"]), (n,))
    kw = dict(time_bin_secs=c["tb"]/8.0, chan_bin_size=int(c["cb"]))
    if c["tb"] % 8 == 0 and c["order"]:
        kw["time_bin_secs"] = c["tb"] // 8
    snap = snapshot(a.values())
    meta_ok = True
    if c["dask"]:
        import dask.array as da
        from africanus.averaging.dask import time_and_channel
        import sched
        rch, cch = tuple(c["rch"]), tuple(c["cch"])
        d = {}
        for k, x in a.items():
            if k in ("chan_freq", "chan_width", "effective_bw",
                     "resolution"):
                ch = (cch,)
            elif k in ("vis", "flag", "weight_spectrum", "sigma_spectrum"):
                ch = (rch, cch, (ncorr,))
            else:
                ch = (rch,) + tuple((s,) for s in x.shape[1:])
            d[k] = da.from_array(x, chunks=ch, name=False)
        lazy = time_and_channel(**d, **kw)
        names = [k for k in lazy._fields if getattr(lazy, k) is not None]
        vals = sched.compute([getattr(lazy, k) for k in names], c["seed"],
                             twice=c["order"] == 1,
                             optimize=c["seed"] % 2 == 0)
        got = dict(zip(names, vals))
        for k in names:
            z = getattr(lazy, k)
            if z.ndim != got[k].ndim or z.dtype != got[k].dtype:
                meta_ok = False
            for ax in range(z.ndim):
                if z.shape[ax] == z.shape[ax] and \
                        z.shape[ax] != got[k].shape[ax]:
                    meta_ok = False
        res = {k: got.get(k) for k in lazy._fields}
    else:
        from africanus.averaging import time_and_channel
        r = time_and_channel(**a, **kw)
        res = {k: getattr(r, k) for k in r._fields}
        keep(*res.values())
    o = {}
    dts = True
    for k, x in res.items():
        if x is not None and k in a and x.dtype != a[k].dtype:
            dts = False
    o["time"] = fx((res["time"].astype(np.float64) - T0)*8, S)
    o["interval"] = fx(res["interval"]*8.0, S)
    o["a1"] = fx(res["antenna1"])
    o["a2"] = fx(res["antenna2"])

    def put(short, name, g):
        o["has" + short] = res[name] is not None
        if res[name] is not None:
            o.update(g(res[name]))

    put("fr", "flag_row", lambda x: {"fr": fx(x.astype(np.int64))})
    put("tc", "time_centroid", lambda x: {"tc": fx(x - V0, S)})
    put("exp", "exposure", lambda x: {"exp": fx(x, S)})
    put("uvw", "uvw", lambda x: {"uvw": fx(x - V0, S)})
    put("w", "weight", lambda x: {"w": fx(x, S)})
    put("sig", "sigma", lambda x: {"sig2": fx(np.where(
        x < 0, np.nan, x.astype(np.float64)**2), S)})
    put("cf", "chan_freq", lambda x: {"cf": fx(x - F0, S)})
    put("cw", "chan_width", lambda x: {"cw": fx(x, S)})
    put("ebw", "effective_bw", lambda x: {"ebw": fx(x, S)})
    put("res", "resolution", lambda x: {"res": fx(x, S)})
    put("vis", "vis", lambda x: {"vis": fx(x - (V0 + 1j*V0), S)})
    put("flag", "flag", lambda x: {"flag": fx(x.astype(np.int64))})
    put("ws", "weight_spectrum", lambda x: {"ws": fx(x, S)})
    put("ss", "sigma_spectrum", lambda x: {"ss2": fx(np.where(
        x < 0, np.nan, x.astype(np.float64)**2), S)})
    o["dtypes_ok"] = dts
    o["inputs_ok"] = same(snap, list(a.values()))
    o["meta_ok"] = meta_ok
    return o
