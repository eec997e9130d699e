"""C21: Kronecker products and covariances."""
TRACE = "KronTrace"
MC = [dict(module="KronMC", cfg="KronMC_thorough.cfg", workers=4)]
NPROC = {"interp": 4}


def mat(rng, r, k, cplx):
    return [[[rng.randint(-3, 3), rng.randint(-3, 3) if cplx else 0]
             for _ in range(k)] for _ in range(r)]


def prod(s):
    p = 1
    for x in s:
        p *= x
    return p


def gen(rng, tier, emitted):
    cases = []
    q = 1 if tier == "quick" else 8

    def add(kind, **c):
        c.setdefault("must", "")
        c.setdefault("S", 1 << 10)
        c.setdefault("tol", 1)
        c.setdefault("dt", "float64")
        # magnitudes far from one; exact in floating point
        dts = c["dt"] + " " + c.get("dtb", "")
        c["e"] = 0 if "int" in dts else rng.choice(
            [0, 0, 6, -16] if "32" in dts or "64" in dts.replace(
                "float64", "") else [0, 0, 12, -20, -50])
        cases.append(dict(kind=kind, modes=["interp"], grp="",
                          **{"in": c}))

    def dt(cplx):
        return rng.choice(["complex128"]*3 + ["complex64"]) if cplx else \
            rng.choice(["float64", "float64", "int64", "float32"])

    def product(fn, shp):
        ck, cb = rng.random() < 0.3, rng.random() < 0.3
        n = 1 if fn.endswith("vec") else rng.randint(1, 3)
        add(fn, fn=fn, K=[mat(rng, r, k, ck) for r, k in shp],
            b=[[[rng.randint(-4, 4), rng.randint(-4, 4) if cb else 0]
                for _ in range(prod(k for _, k in shp))] for _ in range(n)],
            dt=dt(ck), dtb=dt(cb), stack=rng.random() < 0.5)
    shapes = sorted([list(map(list, x["shp"]))
                     for _, em in emitted for x in em])
    for shp in shapes if tier == "thorough" else rng.sample(shapes, 350):
        sq = all(r == k for r, k in shp)
        for fn in ["tensorvec", "tensormat"] + ["matvec", "matmat"]*sq:
            product(fn, shp)
    for i in range(120*q):
        shp = [[k, k] for k in (rng.randint(1, 4)
                                for _ in range(rng.randint(1, 3)))]
        for fn in ("matvec", "matmat"):
            product(fn, shp)
    for shp in rng.sample(shapes, 60):
        add("size", fn="size", K=[mat(rng, r, k, False) for r, k in shp],
            stack=rng.random() < 0.5)
    for n in (100, 127, 128, 129, 200, 256, 300):
        m = rng.randint(1, 3)
        add("large", fn="shift", n=n, by=rng.randint(0, 5),
            b=[[rng.randint(-4, 4), 0] for _ in range(m)],
            square=n % 2 == 0)
    for i in range(100*q):
        cplx = rng.random() < 0.4
        L = []
        for _ in range(rng.randint(1, 4)):
            n = rng.randint(1, 4)
            f = mat(rng, n, n, cplx)
            for a in range(n):
                f[a][a] = [rng.randint(1, 4), 0]
                for b in range(a+1, n):
                    f[a][b] = [0, 0]
            L.append(f)
        if rng.random() < 0.4:
            L = [f for f in L if len(f) == len(L[0])]
        add("cholesky", fn="cholesky", L=L, dt=dt(cplx),
            stack=rng.random() < 0.6)
        # a last direction without variance: factors still exist
        sing = []
        for _ in range(rng.randint(1, 3)):
            n = rng.randint(1, 4)
            f = mat(rng, n, n, cplx)
            for a in range(n):
                f[a][a] = [rng.choice([1, 2]), 0]
                for b in range(a+1, n):
                    f[a][b] = [0, 0]
            if rng.random() < 0.6:
                f[-1][-1] = [0, 0]
            sing.append(f)
        if i % 3 == 0:
            add("singular", fn="cholesky", L=sing,
                dt="complex128" if cplx else "float64", stack=False)
            cases[-1]["in"]["e"] = 0

    def pts(n, d, m):
        return [[rng.randint(-m, m) for _ in range(d)] for _ in range(n)]
    for i in range(150*q):
        d = rng.choice([1, 1, 2, 3])
        x, xp = (pts(rng.randint(1, 5), d, 9) for _ in range(2))
        flat = d == 1 and rng.random() < 0.5
        add("distance", fn="dist", x=x, xp=xp, flat=flat, S=64,
            dt=rng.choice(["float64", "int64"]))
        x, xp = (pts(rng.randint(1, 5), d, rng.choice([1, 2, 3]))
                 for _ in range(2))
        add("covariance", fn="cov", x=x, xp=xp, flat=flat, S=1 << 10,
            sf=rng.randint(1, 4), t=rng.choice([1, 2, 5]))
    for fn, err in [("pspec-2d", "NotImplementedError"),
                    ("pspec-differ", "ValueError"),
                    ("pspec-irregular", "ValueError")]:
        add("invalid", fn=fn, must=err)
    return cases


def execute(case, mode):
    import numpy as np
    from enc import fx, keep, snapshot, same
    import africanus.linalg.kronecker_tools as kt
    from africanus.gps.kernels import exponential_squared
    from africanus.gps.utils import abs_diff
    c = case["in"]
    fn, o = c["fn"], {}
    sc = 2.0**c["e"]

    def arr(x, dt):
        a = np.array(x, dtype=np.float64)
        z = a[..., 0] + 1j*a[..., 1]
        if "complex" in dt:
            return (z*sc).astype(dt)
        return (z.real if dt == "int64" else z.real*sc).astype(dt)

    def pairs(v, n=1):
        keep(v)
        v = np.asarray(v)/sc**n
        return fx(np.stack([v.real, v.imag], -1).astype(np.float64), c["S"])

    def stack(ms):
        if c.get("stack") and all(m.shape == ms[0].shape for m in ms):
            return np.stack(ms)
        a = np.empty(len(ms), dtype=object)
        for i, m in enumerate(ms):
            a[i] = m
        return a
    ins = []
    if fn.startswith("pspec"):
        x = np.arange(4.)[:, None]
        if fn == "pspec-2d":
            exponential_squared(np.ones((4, 2)), np.ones((4, 2)), 1., 1.,
                                pspec=True)
        elif fn == "pspec-differ":
            exponential_squared(x, x + 1, 1., 1., pspec=True)
        else:
            x = x**2
            exponential_squared(x, x, 1., 1., pspec=True)
        return o
    if fn in ("dist", "cov"):
        x, xp = (np.array(c[k], dtype=c["dt"]) for k in ("x", "xp"))
        if fn == "cov":
            x, xp = x*c["t"], xp*c["t"]
        if c["dt"] != "int64":
            x, xp = x*sc, xp*sc
        if c["flat"]:
            x, xp = x[:, 0], xp[:, 0]
        ins = [x, xp]
        snap = snapshot(ins)
        if fn == "dist":
            v = abs_diff(x, xp)
            o["sign"] = bool(np.all(v >= 0))
            keep(v)
            o["v"] = fx((v/sc)**2, c["S"])
        else:
            v = exponential_squared(x, xp, float(c["sf"]),
                                    sc*c["t"]/np.sqrt(2*np.log(2)))
            o["v"] = fx(v, c["S"])
    elif fn == "shift":
        n, m = c["n"], len(c["b"])
        P = np.roll(np.eye(n), c["by"], axis=1)
        b = np.kron(np.arange(n) + 1., arr(c["b"], "float64"))
        K = stack([P*sc, np.eye(m)*sc])
        ins = list(K) + [b]
        snap = snapshot(ins)
        f = kt.kron_matvec if c["square"] else kt.kron_tensorvec
        o["v"] = pairs(f(K, b), 3)
        g = pairs(kt.kron_tensorvec(K, b), 3)
        if g != o["v"]:
            o["v"] = g
    elif fn == "cholesky":
        Ls = [arr(m, c["dt"]) for m in c["L"]]
        Ks = [m @ m.conj().T for m in Ls]
        K = stack(Ks)
        ins = Ks
        snap = snapshot(ins)
        L = kt.kron_cholesky(K)
        o["v"] = [pairs(m) for m in L]
    else:
        Ks = [arr(m, c["dt"]) for m in c["K"]]
        K = stack(Ks)
        if fn == "size":
            snap = snapshot(ins)
            o["v"] = int(kt.kron_N(K))
        else:
            b = arr(c["b"], c["dtb"])
            b = b[0] if fn.endswith("vec") else np.ascontiguousarray(b.T)
            ins = Ks + [b]
            snap = snapshot(ins)
            v = getattr(kt, "kron_" + fn)(K, b)
            o["v"] = pairs(v if fn.endswith("vec") else v.T, len(Ks) + 1)
    o["inputs_ok"] = bool(same(snap, ins))
    return o
