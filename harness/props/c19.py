"""C19: Perley polyhedron gridding and degridding."""
from tile import spread
from fractions import Fraction
from props.skycommon import ch
TRACE = "PPTrace"
MC = [dict(module="PPMC", cfg="PPMC.cfg", workers=4)]
MC_THOROUGH = [dict(module="PPMC", cfg="PPMC_thorough.cfg", workers=4)]
NPROC = {"interp": 8, "jit": 6}

ANG = [(1, 0, 1), (4, 3, 5), (4, -3, 5), (3, 4, 5), (3, -4, 5)]
TO = ["I_FROM_XXYY", "I_FROM_XXXYYXYY", "I_FROM_RRLL", "I_FROM_RRRLLRLL",
      "Q_FROM_XXYY", "Q_FROM_XXXYYXYY", "Q_FROM_RRRLLRLL", "U_FROM_XYYX",
      "U_FROM_XXXYYXYY", "U_FROM_RLLR", "U_FROM_RRRLLRLL", "V_FROM_RRLL",
      "V_FROM_RRRLLRLL", "V_FROM_XYYX", "V_FROM_XXXYYXYY"]
FROM = ["XXYY_FROM_I", "XXXYYXYY_FROM_I", "RRLL_FROM_I", "RRRLLRLL_FROM_I",
        "XXYY_FROM_Q", "XXXYYXYY_FROM_Q", "RLLR_FROM_Q", "RRRLLRLL_FROM_Q",
        "XYYX_FROM_U", "XXXYYXYY_FROM_U", "RLLR_FROM_U", "RRRLLRLL_FROM_U",
        "XYYX_FROM_V", "XXXYYXYY_FROM_V", "RRLL_FROM_V", "RRRLLRLL_FROM_V"]


def ncorr(pol):
    for x in pol.split("_"):
        if len(x) == 8:
            return 4
    return 2


def geom(f, z):
    a, b = f
    return (b[0]*a[1]*z[2], b[1]*z[0]*a[2] - b[0]*z[1]*a[0],
            b[1]*z[1]*a[2] + b[0]*z[0]*a[0], a[2]*b[2]*z[2])


def positions(c, f, r, k):
    """Exact grid positions, only used to stay clear of rounding ties."""
    (a, b), z, w = f, c["z"], c["uvw"][r]
    ll, m, n, den = geom(f, z)
    s = Fraction(c["D"]*c["LL"]*c["sn"], 4*c["sd"]*c["lam"][k])
    if c["btp"] == "None":
        u, v = Fraction(w[0]), Fraction(w[1])
    elif c["btp"] == "rotate":
        ru = (a[0]*b[2]*z[2], z[1]*a[1]*b[2], -z[0]*a[1]*b[2])
        rv = (-b[1]*a[1]*z[2], b[1]*z[1]*a[0] + b[0]*z[0]*a[2],
              -z[0]*b[1]*a[0] + b[0]*z[1]*a[2])
        u = Fraction(sum(x*y for x, y in zip(ru, w)), den)
        v = Fraction(sum(x*y for x, y in zip(rv, w)), den)
    else:
        u, v = w[0] - Fraction(w[2]*ll, n), w[1] - Fraction(w[2]*m, n)
    return u*s, v*s


def sharp(x, os):
    d = (2*x + 1)//2
    t = (d - x)*os
    return abs(d - x) != Fraction(1, 2) and (t == 0 or t.denominator != 1)


def base(rng, fn, dask, conv=None):
    W, OS = rng.choice([1, 3, 3, 5]), rng.choice([1, 2, 3, 4, 5])
    while True:
        z = rng.choice(ANG)
        nfac = rng.randint(1, 2) if dask else 1
        fac = [[list(rng.choice(ANG)), list(rng.choice(ANG))]
               for _ in range(nfac)]
        if all(geom(f, z)[2] > 0 for f in fac):
            break
    nrow, nchan = rng.randint(1, 4), rng.randint(1, 3)
    lam = [rng.choice([1, 2, 4]) for _ in range(nchan)]
    c = dict(fn=fn, W=W, OS=OS, npix=rng.choice([5, 6, 7, 8]),
             z=list(z), fac=fac, lam=lam, LL=4, must="",
             cm=[rng.randint(0, 1) for _ in lam],
             btp=rng.choice(["None", "rotate", "wlin"]),
             ptp=rng.choice(["None", "phase_rotate"]),
             D=125, packed=rng.random() < 0.5, dask=dask,
             conv=conv or ("conv" if fn == "degrid" or rng.random() < 0.8
                           else "nn"),
             f32=rng.random() < 0.15, uint=rng.random() < 0.15,
             rowpar=False, seed=rng.randint(0, 10**6), S=1 << 9, tol=3)
    for _ in range(200):
        m = rng.choice([1, 2, 3])
        c["uvw"] = [[rng.randint(-3*m, 3*m) for _ in range(3)]
                    for _ in range(nrow)]
        c["sn"], c["sd"] = rng.choice([1, 2, 3, 7]), rng.randint(20, 220)
        ps = [x for f in fac for r in range(nrow) for k in range(nchan)
              for x in positions(c, f, r, k)]
        if all(sharp(x, OS) for x in ps) and \
                max(abs(x) for x in ps) < c["npix"]:
            break
    else:
        return base(rng, fn, dask, conv)
    lo = 1 if fn == "degrid" else rng.choice([1, -2])
    c["K"] = [rng.randint(lo, 3) for _ in range(OS*(W + 2))]
    c["ke"] = rng.choice([0, 0, -2, -4, 3])
    c["rch"] = ch(rng, nrow, dask)
    c["cch"] = ch(rng, nchan, dask)
    c["fch"] = ch(rng, nfac, dask)
    g = lambda: [rng.randint(-4, 4), rng.randint(-4, 4)]  # noqa: E731
    if fn == "grid":
        c["pol"] = rng.choice(TO)
        nc = ncorr(c["pol"])
        c["vis"] = [[[g() for _ in range(nc)] for _ in lam]
                    for _ in range(nrow)]
        c["kch"] = ch(rng, nc, dask)
        c["norm"] = rng.random() < 0.4
        if c["norm"]:
            if c["conv"] == "conv":
                c["rch"] = [nrow]
            c["K"] = [max(1, x) for x in c["K"]]
    else:
        c["pol"] = rng.choice(FROM)
        nb = max(c["cm"]) + 1 + rng.randint(0, 1)
        c["grid"] = [[[[g() for _ in range(c["npix"])]
                       for _ in range(c["npix"])] for _ in range(nb)]
                     for _ in range(nfac)]
        c["gch"] = [ch(rng, nb, dask), ch(rng, c["npix"], dask),
                    ch(rng, c["npix"], dask)]
        c["serial"] = rng.random() < 0.8
    if c["f32"]:
        c["S"], c["tol"] = 1 << 6, 3
    return c


def gen(rng, tier, emitted):
    cases = []
    q = 1 if tier == "quick" else 6

    def add(kind, modes, grp, c):
        cases.append(dict(kind=kind, modes=modes, grp=grp, **{"in": c}))
    # every sharp position the specification walks through
    em = [x for _, e in emitted for x in e]
    rng.shuffle(em)
    for i, x in enumerate(em[:250*q]):
        c = base(rng, "grid" if i % 3 else "degrid", False, "conv")
        y = rng.choice([e for e in em[:400] if e["OS"] == x["OS"]
                        and e["W"] == x["W"]] or [x])
        K = [rng.randint(1, 9) for _ in range(x["OS"]*(x["W"] + 2))]
        c.update(W=x["W"], OS=x["OS"], K=K, D=1, LL=1, sn=1, sd=x["q"]//4,
                 uvw=[[x["p"], y["p"], 5]], lam=[1], cm=[0], rch=[1],
                 cch=[1], npix=6, z=[1, 0, 1], btp="None", f32=False,
                 fac=[[[1, 0, 1], [1, 0, 1]]])
        if c["fn"] == "grid":
            c["vis"] = [[c["vis"][0][0]]]
        else:
            c["grid"] = [[[[[rng.randint(-4, 4), rng.randint(-4, 4)]
                            for _ in range(6)] for _ in range(6)]]]
        add("walk", ["interp"], "", c)
    for i in range(150*q):
        add("grid", ["interp"], "", base(rng, "grid", False))
        add("grid-chunked", ["interp"], "", base(rng, "grid", True))
        add("degrid", ["interp"], "", base(rng, "degrid", False))
        add("degrid-chunked", ["interp"], "", base(rng, "degrid", True))
    # compiled: one group per combination of policies
    for i in range(6):
        for fn in ("grid", "degrid"):
            t = base(rng, fn, i % 3 == 1, "conv" if i else None)
            t["btp"] = ["None", "rotate", "wlin"][i % 3]
            t["ptp"] = ["phase_rotate", "None", "phase_rotate", "phase_rotate",
                        "phase_rotate", "None"][i]
            t["f32"], t["uint"] = False, False
            if fn == "degrid":
                t["serial"] = i != 2
                t["rowpar"] = i == 4
            for j in range(6*min(q, 3)):
                for _ in range(500):
                    c = base(rng, fn, t["dask"], t["conv"])
                    if (c["btp"], c["ptp"]) == (t["btp"], t["ptp"]):
                        break
                else:
                    break
                nc = ncorr(t["pol"])
                if fn == "grid":
                    c["vis"] = [[(x*2)[:nc] for x in r] for r in c["vis"]]
                    c["kch"] = ch(rng, nc, c["dask"])
                else:
                    c["serial"], c["rowpar"] = t["serial"], t["rowpar"]
                c.update(pol=t["pol"], packed=t["packed"], f32=False,
                         uint=False, S=1 << 9)
                add("compiled", ["jit"], "%s%d" % (fn, i), c)
    for i in range(30*q):
        W, OS = rng.choice([1, 3, 5, 7]), rng.randint(1, 7)
        add("pack", ["interp"], "", dict(
            fn="pack", W=W, OS=OS, must="",
            K=[rng.randint(-50, 50) for _ in range(OS*(W + 2))],
            dt=rng.choice(["float64", "float32", "complex128"])))
    for i in range(10*q):
        npix, OS = rng.choice([(4, 2), (8, 1), (2, 4)])
        W = rng.choice([1, 3])
        d = dict(fn="detaper", W=W, OS=OS, npix=npix, must="",
                 K=[rng.randint(0, 2) for _ in range(OS*(W + 2))])
        for how in ("2d", "sep") + (("fft",) if W + 2 <= npix else ()):
            add("detaper", ["interp", "jit"] if i == 0 else ["interp"],
                "det" + how, dict(d, how=how))
    for W in (3, 5, 7):
        for OS in (1, 3, 5, 9):
            for k in ("sinc", "hanningsinc", "kbsinc"):
                add("window", ["interp"], "", dict(
                    fn="window", W=W, OS=OS, must="", k=k, S=1 << 20))
    for i in range(24):
        fn = "grid" if i % 2 else "degrid"
        c = base(rng, fn, False, "conv")
        c["bad"] = (["chanmap", "uvwcols", "rows"] if fn == "grid" else
                    ["chanmap", "uvwcols", "square", "bands"])[
                        (i//2) % (3 if fn == "grid" else 4)]
        c["must"] = "ValueError"
        c["uint"] = c["f32"] = False
        add("errors", ["interp"], "", c)
    spread(rng, cases, 30 if tier == "quick" else 200, dict(
        degrid=[dict(axes=[["uvw", 0]], out=[["v", 0]], chs="rch")],
        # normalisation counts rows, and chunks are averaged
        grid=[dict(axes=[["uvw", 0], ["vis", 0]], chs="rch",
                   when=lambda c: not (c["dask"] or c["norm"]),
                   fill=[["vis", 0, None]])]), (17, 33, 65))
    return cases


def window(c):
    from africanus.gridding.perleypolyhedron import kernels
    from enc import fx
    f = getattr(kernels, c["k"])
    return dict(v=fx(f(c["W"], oversample=c["OS"]), c["S"]))


def execute(case, mode):
    import numpy as np
    from enc import fx, keep, snapshot, same
    from africanus.gridding.perleypolyhedron import kernels, gridder, degridder
    c = case["in"]
    fn = c["fn"]
    if fn == "window":
        return window(c)
    o = dict(meta_ok=True, dtype_ok=True, inputs_ok=True)
    W, OS = c["W"], c["OS"]
    if fn == "pack":
        K = np.array(c["K"]).astype(c["dt"])
        s = snapshot([K])
        p = kernels.pack_kernel(K, W, OS)
        b = kernels.unpack_kernel(p, W, OS)
        o["dtype_ok"] = bool(p.dtype == K.dtype and b.dtype == K.dtype)
        o["inputs_ok"] = bool(same(s, [K]))
        o["packed"], o["back"] = fx(p.real), fx(b.real)
        return o
    K = np.array(c["K"], np.float64)
    if fn == "detaper":
        k2 = np.outer(K, K)
        s = snapshot([K, k2])
        if c["how"] == "sep":
            v = kernels.compute_detaper_dft_seperable(c["npix"], K, W, OS)
        elif c["how"] == "2d":
            v = kernels.compute_detaper_dft(c["npix"], k2, W, OS)
        else:
            v = kernels.compute_detaper(c["npix"], k2, W, OS)
        o["inputs_ok"] = bool(same(s, [K, k2]))
        keep(v)
        o["v"] = fx(v*v)
        return o
    # kernels of any scale; exact, and undone by normalisation
    ks = 2.0**c["ke"]
    K = K*ks
    if c["packed"]:
        K = kernels.pack_kernel(K, W, OS)

    def ang(x):
        return float(np.arctan2(x[1], x[0]))
    ra0 = 0.3
    ic = np.array([[ra0 + ang(a), ang(b)] for a, b in c["fac"]])
    pc = (ra0, ang(c["z"]))
    npix = c["npix"]
    uvw = np.array(c["uvw"], np.float64)*c["D"]*c["LL"]/4
    cell = c["sn"]/c["sd"]*3600*180/np.pi/npix
    if c["uint"] and c["D"] == 125:      # LL = 4: integer metres
        uvw = uvw.astype(np.int64)
    lam = np.array(c["lam"], np.float64)
    cm = np.array(c["cm"], np.int64)
    cdt = np.complex64 if c["f32"] else np.complex128

    def cplx(x):
        x = np.array(x, np.float64)
        return (x[..., 0] + 1j*x[..., 1]).astype(cdt)
    pol = {"None": "None", "rotate": "rotate", "wlin": "wlinapprox"}[c["btp"]]
    tail = [pol, c["ptp"], c["pol"]]
    kind = "packed" if c["packed"] else "unpacked"
    bad = c.get("bad", "")
    if bad == "chanmap":
        cm = np.append(cm, 0)
    if bad == "uvwcols":
        uvw = uvw[:, :2].copy()
    ins = [uvw, lam, cm, K]
    dask = c["dask"]
    if dask:
        import dask.array as da
        import sched
        from africanus.gridding.perleypolyhedron import dask as dm

        def D(a, *ch):
            return da.from_array(a, chunks=ch, name=False)
        R, C, F = tuple(c["rch"]), tuple(c["cch"]), tuple(c["fch"])
        duvw, dlam, dcm, dic = D(uvw, R, 3), D(lam, C), D(cm, C), D(ic, F, 2)
    if fn == "grid":
        vis = cplx(c["vis"])
        if bad == "rows":
            vis = np.concatenate([vis, vis])
        ins.append(vis)
        snap = snapshot(ins)
        tail.append("conv_nn_scatter" if c["conv"] == "nn" else
                    "conv_1d_axisymmetric_%s_scatter" % kind)
        kw = dict(grid_dtype=cdt, do_normalize=c["norm"])
        if dask:
            z = dm.gridder(duvw, D(vis, R, C, tuple(c["kch"])), dlam, dcm,
                           npix, cell, dic, pc, K, W, OS, *tail, **kw)
            v, = sched.compute([z], c["seed"], twice=c["seed"] % 3 == 0)
            o["meta_ok"] = bool(z.dtype == v.dtype and z.shape == v.shape)
            v = v[:, 0]
        else:
            v = gridder.gridder(uvw, vis, lam, cm, npix, cell, ic[0], pc,
                                K, W, OS, *tail, **kw)[None]
    else:
        grid = cplx(c["grid"])
        if bad == "square":
            grid = grid[..., :-1].copy()
        if bad == "bands":
            grid = grid[:, :max(c["cm"])].copy()
        ins.append(grid)
        snap = snapshot(ins)
        tail.append("conv_1d_axisymmetric_%s_gather" % kind)
        if dask:
            z = dm.degridder(duvw, D(grid, F, *map(tuple, c["gch"])), dlam,
                             dcm, cell, dic, pc, K, W, OS, *tail,
                             vis_dtype=cdt, rowparallel=c["rowpar"])
            v, = sched.compute([z], c["seed"], twice=c["seed"] % 3 == 0)
            o["meta_ok"] = bool(z.dtype == v.dtype and z.shape == v.shape)
        else:
            f = degridder.degridder_serial if c["serial"] else \
                degridder.degridder
            v = f(uvw, grid[0], lam, cm, cell, ic[0], pc, K, W, OS,
                  *tail, vis_dtype=cdt)
    o["dtype_ok"] = bool(v.dtype == cdt)
    o["inputs_ok"] = bool(same(snap, ins))
    if fn == "grid" and c["conv"] == "conv" and not c["norm"]:
        v = v/ks**2
    o["v"] = fx(v, c["S"])
    return o
