"""C12: Hogbom CLEAN."""
NPROC = {"interp": 6, "jit": 3}
MC = [dict(module="CleanMC", cfg="CleanMC.cfg", workers=3),
      dict(module="CleanMC", cfg="CleanMC_emit.cfg", workers=1)]
MC_THOROUGH = [dict(module="CleanMC", cfg="CleanMC_thorough.cfg", workers=8),
               dict(module="CleanMC", cfg="CleanMC_emit.cfg", workers=1)]
TRACE = "CleanTrace"


def make(rng, x=None, size=None):
    if x is not None:
        n, g, niter = 2, x["g"], x["niter"]
        c = dict(fn="clean", n=n, dirty=x["dirty"], psf=x["psf"], g=g,
                 niter=niter, tnum=x["tnum"], tden=x["tden"], maxit=2)
    else:
        n = size or rng.choice([1, 2, 2, 3, 3, 4, 5])
        g = rng.choice([0, 1, 1, 1, 2])
        maxit = rng.choice([1, 2, 3, 4, 6]) if g < 2 else rng.choice([1, 2, 3])
        if n == 2 and g <= 1 and rng.random() < 0.3:
            maxit = 6
        pv = rng.choice([[0, 0, 0, 1], [0, 1, -1], [0, 0, 0, 0, 0, 1, -1, 2],
                         [0]])
        psf = [[rng.choice(pv) for _ in range(2*n)] for _ in range(2*n)]
        if rng.random() < 0.9:
            psf[n-1][n-1] = 1
        # sparse positive images avoid exponential growth of tie choices
        lo = rng.choice([-3, 0, -9])
        vals = list(range(lo, 12))
        dirty = [[rng.choice(vals) for _ in range(n)] for _ in range(n)]
        if rng.random() < 0.3:
            dirty = [[0]*n for _ in range(n)]
            for _ in range(rng.randint(1, 3)):
                dirty[rng.randrange(n)][rng.randrange(n)] = rng.randint(1, 9)
        if rng.random() < 0.1:
            dirty = [[-abs(v) for v in r] for r in dirty]
        t = rng.choice([(0, 1), (1, 2), (1, 4), (1, 8), (3, 4), (1, 5),
                        (1, 1), (9, 8)])
        c = dict(fn="clean", n=n, dirty=dirty, psf=psf, g=g, niter=maxit,
                 tnum=t[0], tden=t[1], maxit=maxit)
        if 3*n <= 6 and rng.random() < 0.5:
            c["niter"] = c["maxit"] = 3*n
            if g == 2:
                c["g"] = 1
    c["exact"] = c["tden"] != 5
    c["sc"] = 2**(c["g"]*c["maxit"])
    c["defn"] = c["niter"] == 3*c["n"] and rng.random() < 0.8
    c["must"] = ""
    c["bad"] = 0
    if x is None and rng.random() < 0.04:
        c["bad"] = rng.randint(1, 4)
        c["must"] = "ValueError"
    c["dt"] = rng.choice(["f8", "f8", "f4"])
    c["lay"] = rng.choice(["C", "C", "F", "strided"])
    return c


def restore(rng):
    n = rng.choice([12, 16, 20])
    c = dict(fn="restore", n=n, must="", pos=[rng.randint(3, n-4) + 1,
                                               rng.randint(3, n-4) + 1],
             amp=rng.randint(1, 9), w=rng.choice([15, 20, 25]),
             w2=rng.choice([15, 20]), seed=rng.randint(0, 10**6))
    return c


def gen(rng, tier, emitted):
    cases = []
    quick = tier == "quick"

    def add(kind, modes, grp, c):
        cases.append(dict(kind=kind, modes=modes, grp=grp, **{"in": c}))
    lines = [x for _, em in emitted for x in em]
    rng.shuffle(lines)
    for x in lines[:800 if quick else 6000]:
        add("from-spec", ["interp"], "s", make(rng, x))
    for i in range(900 if quick else 9000):
        c = make(rng)
        add("clean", ["interp", "jit"] if i < 60 else ["interp"],
            c["dt"] + c["lay"], c)
    for i in range(12 if quick else 100):
        c = make(rng, size=rng.choice([9, 16, 33]))
        c["niter"] = c["maxit"] = min(c["maxit"], 3)
        add("large", ["interp"], "l", c)
    for i in range(30 if quick else 200):
        add("restore", ["interp"], "r", restore(rng))
    return cases


def execute(case, mode):
    import numpy as np
    from enc import fx, snapshot, same, layout
    from africanus.deconv.hogbom.clean import hogbom_clean, restore
    c = case["in"]
    n = c["n"]
    if c["fn"] == "restore":
        x = np.arange(2*n) - (n-1)
        psf = np.exp(-(x[:, None]*10/c["w"])**2/2 - (x*10/c["w2"])**2/2)
        cl = np.zeros((n, n))
        cl[c["pos"][0]-1, c["pos"][1]-1] = c["amp"]
        rs = np.random.RandomState(c["seed"]).randint(-4, 4, (n, n)) * 1.0
        arrs = [cl, psf, rs]
        snap = snapshot(arrs)
        r, m = restore(cl, psf, rs)
        k = np.unravel_index(np.argmax(m), m.shape)
        return dict(sum_ok=bool(r.shape == (n, n) == m.shape and
                                np.allclose(r, m + rs, rtol=0, atol=1e-9)),
                    peak=[int(k[0]) + 1, int(k[1]) + 1],
                    amp=fx(m.max(), 1000), inputs_ok=same(snap, arrs))
    dirty = layout(np.array(c["dirty"], c["dt"]), c["lay"])
    psf = np.array(c["psf"], c["dt"])
    if c["bad"] == 1:
        psf = psf[:-1]
    elif c["bad"] == 2:
        psf = psf[:, :-1]
    elif c["bad"] == 3:
        psf = np.concatenate([psf, psf])
    elif c["bad"] == 4:
        psf = psf[:n, :n]
    psf = layout(psf, c["lay"])
    kw = dict(gamma=1/2**c["g"])
    if not c["defn"]:
        kw["niter"] = c["niter"]
    if (c["tnum"], c["tden"]) != (1, 5):
        kw["threshold"] = c["tnum"]/c["tden"]
    snap = snapshot([dirty, psf])
    cl, rs = hogbom_clean(dirty, psf, **kw)
    return dict(clean=fx(cl, c["sc"]), res=fx(rs, c["sc"]),
                dtype_ok=bool(cl.dtype == rs.dtype == dirty.dtype and
                              cl.shape == rs.shape == dirty.shape),
                inputs_ok=same(snap, [dirty, psf]))
