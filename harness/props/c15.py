"""C15: source spectra, Gaussian shapes and WSClean prediction."""
from tile import spread
from props.skycommon import SRC, ch

TRACE = "FluxTrace"
MC = [dict(module="FluxMC", cfg="FluxMC.cfg", workers=4)]
MC_THOROUGH = [dict(module="FluxMC", cfg="FluxMC_thorough.cfg", workers=8)]
NPROC = {"jit": 4}
BASES = ["std", "log", "log10"]
AX = [(1, 0, 1), (0, 1, 1), (-1, 0, 1), (0, -1, 1)]
P345 = [(3, 4, 5), (-4, 3, 5), (-3, -4, 5), (4, -3, 5)]


def dts(rng, n):
    r = rng.random()
    if r < 0.6:
        return ["float64"]*n
    if r < 0.75:
        return ["float32"]*n
    return [rng.choice(["float32", "float64"]) for _ in range(n)]


def logexp(cs, k):
    return sum(c*k**(i+1) for i, c in enumerate(cs))


def spec(rng, dask=False, lst=None):
    ns, nf = rng.randint(1, 4), rng.randint(1, 4)
    npol = rng.randint(1, 4)
    nspi = rng.randint(1, 3)
    haspol = npol > 1 or rng.random() < 0.5
    islist = rng.random() < 0.6 if lst is None else lst
    base = [rng.choice(BASES) for _ in range(
        rng.randint(1, npol + 1) if islist else 1)]
    d = dts(rng, 4)
    c = dict(fn="spec", base=base, npol=npol, haspol=haspol, list=islist,
             names=rng.random() < 0.5, default=False,
             ref=[rng.randint(0, 3) for _ in range(ns)],
             fr=[rng.randint(0, 3) for _ in range(nf)], dts=d,
             rel=13 if "float32" in d else 22, must="",
             dask=dask, chs=[ch(rng, ns, dask), ch(rng, nf, dask),
                             ch(rng, npol, dask)],
             lay=rng.choice(["C", "C", "strided", "F"]),
             seed=rng.randint(0, 10**6))
    c["I"], c["spi"] = [], []
    for s in range(ns):
        row, sp = [], []
        for p in range(npol):
            b = base[min(p, len(base)-1)]
            lo = -9 if b == "std" else 1
            row.append(rng.randint(lo, 9))
            while True:
                cs = [rng.randint(-3, 3) for _ in range(nspi)]
                ok = True
                for f in c["fr"]:
                    k = f - c["ref"][s]
                    e = k*sum(cs) if b == "std" else logexp(cs, k)
                    ok = ok and -10 <= e <= 10
                if ok:
                    break
            sp.append(cs)
        c["I"].append(row)
        c["spi"].append([[sp[p][i] for p in range(npol)]
                         for i in range(nspi)])
    if base == ["std"] and not islist and rng.random() < 0.5:
        c["default"] = True
    return c


def wsrc(rng, ns, nf, kmax=2, logs=None, refs=None):
    ncoef = rng.randint(1, 3)
    fr = [rng.randint(0, kmax) for _ in range(nf)]
    c = dict(I=[], coef=[], log=[], ref=[], fr=fr)
    for s in range(ns):
        lg = rng.random() < 0.5 if logs is None else logs[s]
        rf = rng.randint(0, kmax) if refs is None else refs[s]
        while True:
            cs = [rng.randint(1, 3) if lg else rng.randint(-5, 5)
                  for _ in range(ncoef)]
            if all(not lg or -8 <= logexp(cs, f - rf) <= 8 for f in fr):
                break
            ncoef2 = ncoef
            if rng.random() < 0.2:
                fr[:] = [max(0, min(x, rf + 1)) for x in fr]
            assert ncoef2 == ncoef
        c["I"].append(rng.randint(1, 9) if lg else rng.randint(-9, 9))
        c["coef"].append(cs)
        c["log"].append(lg)
        c["ref"].append(rf)
    # channels may have been narrowed: recheck is not needed (monotone)
    return c


def ws(rng, dask=False, scalar=False):
    ns, nf = rng.randint(1, 4), rng.randint(1, 4)
    logs = None
    if scalar:
        logs = [rng.random() < 0.5]*ns
    c = wsrc(rng, ns, nf, logs=logs)
    d = dts(rng, 4)
    c.update(fn="ws", dts=d, rel=13 if "float32" in d else 22, must="",
             scalar=scalar, dask=dask,
             chs=[ch(rng, ns, dask), ch(rng, nf, dask),
                  ch(rng, len(c["coef"][0]), dask)],
             lay=rng.choice(["C", "C", "strided"]),
             seed=rng.randint(0, 10**6))
    return c


def shapes(rng, ns, p345):
    out = []
    for _ in range(ns):
        a = rng.randint(0, 2)
        b = rng.randint(0, a) if rng.random() < 0.8 else rng.randint(0, 2)
        if a == 0:
            b = 0
        out.append(dict(maj=a, min=b, ang=list(rng.choice(
            P345 if p345 else AX))))
    return out


def rows(rng, nr, p345, m=2):
    out = []
    for _ in range(nr):
        a, b = rng.randint(-m, m), rng.randint(-m, m)
        u, v = (3*a + 4*b, -4*a + 3*b) if p345 else (a, b)
        out.append([u, v, rng.randint(-3, 3)])
    return out


def gauss(rng, dask=False):
    ns, nr, nf = (rng.randint(1, 4) for _ in range(3))
    p = rng.random() < 0.5
    d = dts(rng, 3)
    return dict(fn="gauss", g=shapes(rng, ns, p), uvw=rows(rng, nr, p),
                q=[rng.randint(1, 3) for _ in range(nf)], dts=d,
                rel=12 if "float32" in d else 22,
                dask=dask, chs=[ch(rng, x, dask) for x in (ns, nr, nf)],
                lay=rng.choice(["C", "C", "strided"]),
                seed=rng.randint(0, 10**6))


def pred(rng, dask=False, model=None):
    ns, nr, nf = rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 3)
    if model:
        ns = len(model["type"])
    c = wsrc(rng, ns, nf, kmax=2, logs=model and model["log"],
             refs=model and model["ref"])
    p = rng.random() < 0.5
    c.update(fn="pred", src=[list(rng.choice(SRC)) for _ in range(ns)],
             type=model["type"] if model else
             [rng.choice(["POINT", "GAUSSIAN"]) for _ in range(ns)],
             g=shapes(rng, ns, p), uvw=rows(rng, nr, p, 1), D=105,
             dts=["float64"]*6, rel=20, must="", dask=dask,
             chs=[ch(rng, x, dask) for x in (ns, nr, nf,
                                             len(c["coef"][0]))],
             lay=rng.choice(["C", "C", "strided"]),
             seed=rng.randint(0, 10**6))
    return c


def gen(rng, tier, emitted):
    cases = []
    k = 1 if tier == "quick" else 8

    def add(kind, modes, grp, c):
        cases.append(dict(kind=kind, modes=modes, grp=grp, **{"in": c}))
    lines = [x for _, em in emitted for x in em]
    rng.shuffle(lines)
    for x in lines[:120 if k == 1 else 2000]:
        add("model-from-spec", ["interp"], "", pred(rng, rng.random() < 0.4,
                                                     x))
    for dask in (False, True):
        d = "-chunked" if dask else ""
        for i in range(110*k):
            add("spectral" + d, ["interp"], "", spec(rng, dask))
        for i in range(80*k):
            add("wsclean-spectra" + d, ["interp"], "",
                ws(rng, dask, i % 4 == 0))
            add("gaussian" + d, ["interp"], "", gauss(rng, dask))
            add("predict" + d, ["interp"], "", pred(rng, dask))
        for i in range(4):
            c = spec(rng, dask, False)
            c.update(base=["nosuch"], must="ValueError", default=False)
            add("bad-base" + d, ["interp"], "", c)
            c = ws(rng, dask)
            s = rng.randrange(len(c["I"]))
            c["log"][s] = True
            c["coef"][s] = [1]*len(c["coef"][s])
            c["I"][s] = rng.choice([0, -3])
            c["scalar"] = False
            add("bad-flux" + d, ["interp"], "", c)
            c = pred(rng, dask)
            c["type"][rng.randrange(len(c["type"]))] = rng.choice(
                ["point", "SHAPELET", ""])
            add("bad-type" + d, ["interp"], "", c)
        for i in range(4):
            c = spec(rng, True)
            n = len(c["spi"][0])
            if n > 1:
                c["spichunk"] = [1]*n
                c["must"] = "ValueError"
                add("spi-chunked", ["interp"], "", c)
    for i in range(12*k):
        c = spec(rng, i % 3 == 0, i % 2 == 0)
        c.update(dts=["float64"]*4, lay="C", rel=22,
                 names=i % 4 < 2)
        add("spectral-compiled", ["jit"], "s%d%d" % (i % 2, i % 4 < 2), c)
        c = ws(rng, i % 3 == 0, i % 4 == 0)
        c.update(dts=["float64"]*4, lay="C", rel=22)
        add("wsclean-spectra-compiled", ["jit"], "w", c)
        c = gauss(rng, i % 3 == 0)
        c.update(dts=["float64"]*3, lay="C", rel=22)
        add("gaussian-compiled", ["jit"], "g", c)
        c = pred(rng, i % 3 == 0)
        c.update(lay="C")
        add("predict-compiled", ["jit"], "p", c)
    v = "v"
    spread(rng, cases, 60*k, dict(
        spec=[dict(axes=[["I", 0], ["spi", 0], ["ref", 0]], out=[[v, 0]],
                   chs=0), dict(axes=[["fr", 0]], out=[[v, 1]], chs=1)],
        ws=[dict(axes=[["I", 0], ["coef", 0], ["log", 0], ["ref", 0]],
                 out=[[v, 0]], chs=0),
            dict(axes=[["fr", 0]], out=[[v, 1]], chs=1)],
        gauss=[dict(axes=[["g", 0]], out=[[v, 0]], chs=0),
               dict(axes=[["uvw", 0]], out=[[v, 1]], chs=1),
               dict(axes=[["q", 0]], out=[[v, 2]], chs=2)],
        pred=[dict(axes=[["uvw", 0]], out=[[v, 0]], chs=1),
              dict(axes=[["fr", 0]], out=[[v, 1]], chs=2),
              dict(axes=[[x, 0] for x in ("I", "coef", "log", "ref", "src",
                                          "type", "g")],
                   fill=[["I", 0, None], ["coef", 0, None],
                         ["log", 0, False]], chs=0)]))
    return cases


def execute(case, mode):
    import numpy as np
    from enc import fx, layout, snapshot, same
    light = 299792458.0
    c = case["in"]
    fn, dask = c["fn"], c["dask"]
    o = dict(meta_ok=True)
    ins = []
    ln2 = np.log(2.0)
    F = 1.0e9

    def A(x, dt="float64"):
        a = layout(np.array(x).astype(dt), c.get("lay", "C"))
        ins.append(a)
        return a

    def D(a, *chunks):
        import dask.array as da
        return da.from_array(a, chunks=chunks, name=False) if dask else a

    def run(z):
        if not dask:
            return z
        import sched
        v, = sched.compute([z], c["seed"], twice=c["seed"] % 3 == 0,
                           optimize=c["seed"] % 2 == 0)
        o["meta_ok"] = bool(z.dtype == v.dtype and z.shape == v.shape)
        return v
    cs = [tuple(x) for x in c["chs"]]
    if "fr" in c:
        freq = np.array([F*2.0**j for j in c["fr"]])
        ref = np.array([F*2.0**j for j in c["ref"]])
    if fn == "spec":
        I = np.array(c["I"], float)                       # noqa: E741
        spi = np.array(c["spi"], float)
        for p in range(c["npol"]):
            b = c["base"][min(p, len(c["base"])-1)]
            unit = {"log": ln2, "log10": np.log10(2.0)}.get(b)
            if unit:
                for i in range(spi.shape[1]):
                    spi[:, i, p] *= unit**(-i)
        if not c["haspol"]:
            I, spi = I[:, 0], spi[:, :, 0]                # noqa: E741
        pol = (cs[2],) if c["haspol"] else ()
        a = [A(I, c["dts"][0]), A(spi, c["dts"][1]), A(ref, c["dts"][2]),
             A(freq, c["dts"][3])]
        snap = snapshot(ins)
        base = [b if c["names"] else {"std": 0, "log": 1, "log10": 2}
                .get(b, 7) for b in c["base"]]
        if not c["list"]:
            base = base[0]
        kw = {} if c["default"] else dict(base=base)
        if dask:
            from africanus.model.spectral.dask import spectral_model
        else:
            from africanus.model.spectral import spectral_model
        v = run(spectral_model(
            D(a[0], cs[0], *pol),
            D(a[1], cs[0], tuple(c.get("spichunk", [len(c["spi"][0])])),
              *pol), D(a[2], cs[0]), D(a[3], cs[1]), **kw))
        o["dtype_ok"] = bool(v.dtype == np.result_type(*c["dts"]))
        o["v"] = fx(v if c["haspol"] else v[..., None], 1 << 14)
    if fn in ("ws", "pred"):
        coef = np.array(c["coef"], float)
        for s, lg in enumerate(c["log"]):
            if lg:
                for i in range(coef.shape[1]):
                    coef[s, i] *= ln2**(-i)
    if fn == "ws":
        a = [A(c["I"], c["dts"][0]), A(coef, c["dts"][1]),
             A(ref, c["dts"][2]), A(freq, c["dts"][3])]
        lg = c["log"][0] if c["scalar"] else A(c["log"], "bool")
        snap = snapshot(ins)
        if dask:
            from africanus.model.wsclean.dask import spectra
        else:
            from africanus.model.wsclean import spectra
        v = run(spectra(D(a[0], cs[0]), D(a[1], cs[0], cs[2]),
                        lg if c["scalar"] else D(lg, cs[0]),
                        D(a[2], cs[0]), D(a[3], cs[1])))
        o["dtype_ok"] = bool(v.dtype == np.result_type(*c["dts"]))
        o["v"] = fx(v, 1 << 14)
    gs = np.pi/(2.0*np.sqrt(ln2))/light     # pi/(2 sqrt(ln 2)) f/c
    if fn == "gauss":
        # uvw in metres, one unit of length at F gives 2^-1
        L = 1000.0
        unit = np.sqrt(ln2)/(gs*F*L)
        g = [[x["maj"]*unit/x["ang"][2], x["min"]*unit/x["ang"][2],
              np.arctan2(x["ang"][1], x["ang"][0])] for x in c["g"]]
        a = [A(np.array(c["uvw"])*L, c["dts"][0]),
             A(np.array(c["q"])*F, c["dts"][1]), A(g, c["dts"][2])]
        snap = snapshot(ins)
        if dask:
            from africanus.model.shape.dask import gaussian
        else:
            from africanus.model.shape import gaussian
        v = run(gaussian(D(a[0], cs[1], 3), D(a[1], cs[2]),
                         D(a[2], cs[0], 3)))
        o["dtype_ok"] = bool(v.dtype == np.result_type(*c["dts"]))
        o["v"] = fx(v, 1 << 20)
    if fn == "pred":
        L = c["D"]*(light/F)/4.0
        unit = np.sqrt(ln2)/(gs*F*L)
        g = [[x["maj"]*unit/x["ang"][2], x["min"]*unit/x["ang"][2],
              np.arctan2(x["ang"][1], x["ang"][0])] for x in c["g"]]
        uvw = A(np.array(c["uvw"])*L)
        lm = A([[s[0]/s[3], s[1]/s[3]] for s in c["src"]])
        st = A(np.array(c["type"], "U8"), "U8")
        I = A(c["I"], "float64")                          # noqa: E741
        co, lg, rf = A(coef), A(c["log"], "bool"), A(ref)
        g, fr = A(g), A(freq)
        snap = snapshot(ins)
        if dask:
            from africanus.rime.dask import wsclean_predict
        else:
            from africanus.rime.wsclean_predict import wsclean_predict
        s = cs[0]
        v = run(wsclean_predict(
            D(uvw, cs[1], 3), D(lm, s, 2), D(st, s), D(I, s),
            D(co, s, cs[3]), D(lg, s), D(rf, s), D(g, s, 3),
            D(fr, cs[2])))
        o["dtype_ok"] = bool(v.dtype == np.complex128)
        o["v"] = fx(v, 1 << 14)
    sn = [x for x in snap if x.dtype.kind != "U"]
    o["inputs_ok"] = bool(same(sn, [x for x in ins
                                    if x.dtype.kind != "U"]))
    return o
