"""C30: the cell size of an image."""
TRACE = "CellTrace"
MC = [dict(module="CellMC", cfg="CellMC.cfg", workers=1)]
MC_THOROUGH = MC + [dict(module="CellMC", cfg="CellMC_thorough.cfg",
                         workers=4)]
NPROC = {"interp": 4}


def room(b, f):
    """Least number of cells that is enough; 0 if none is."""
    lo, hi = min(map(abs, b)), max(map(abs, b))
    return -(-2*f[0]*hi // (lo*f[1])) if lo else 0


def gen(rng, tier, emitted):
    cases = []
    q = 1 if tier == "quick" else 10
    seen = [x for _, em in emitted for x in em]

    def add(kind, u, v, w, f, **c):
        c = dict(dict(u=u, v=v, w=w, f=f, ny=0, nx=0, must="", exact=False,
                      dt="float64", form="array", deff=False), **c)
        c["S"] = 1 << (10 if c["dt"] == "float64" else 4)
        c["tol"] = 1
        cases.append(dict(kind=kind, modes=["interp"], grp="",
                          **{"in": c}))

    def size(b, f):
        n = room(b, f)
        if not n:
            return rng.choice([0, 1, 1000])
        return max(1, rng.choice([0, n-1, n, n+1, n-1, n+1, n//2, 2*n]))
    for x in seen:
        y = rng.choice(seen)
        f = x["f"]
        add("samples", x["b"], y["b"], x["w"], f,
            ny=size(x["b"], f) if rng.random() < 0.7 else 0,
            nx=size(y["b"], f) if rng.random() < 0.7 else 0)
    for i in range(400*q):
        m = rng.choice([3, 20, 700])

        def bl(k):
            b = [rng.randint(-m, m) for _ in range(k)]
            if rng.random() < 0.8:
                b = [x or m for x in b]
            return b if any(b) else [m]*k
        k = rng.choice([1, 1, 2, 4, 9])
        form = "scalar" if k == 1 and rng.random() < 0.6 else "array"
        f = rng.choice([[3, 1], [3, 1], [1, 1], [5, 2], [1, 2], [8, 1]])
        u, v = bl(k), bl(rng.choice([k, k, 1 if form == "scalar" else 3]))
        if form == "scalar":
            u, v = [x or 1 for x in u], [x or 1 for x in v]
        w = [rng.randint(1, 9)] if form == "scalar" else [
            rng.randint(1, 9) for _ in range(rng.choice([1, 2, 5]))]
        add("random", u, v, w, f, form=form,
            dt=rng.choice(["float64", "float64", "float32", "int64"]),
            deff=f == [3, 1] and rng.random() < 0.5,
            ny=size(u, f) if rng.random() < 0.5 else 0,
            nx=size(v, f) if rng.random() < 0.5 else 0)
    for i in range(40*q):
        # everything a power of two: exactly enough is enough
        f = rng.choice([[1, 1], [2, 1], [4, 1], [1, 2]])
        hi = 2**rng.randint(2, 6)
        u = [rng.choice([-1, 1])*hi, rng.choice([1, 2, 4])]
        v = [rng.choice([1, 2]), -hi]
        add("exact", u, v, [2**rng.randint(0, 3)], f, exact=True,
            ny=max(0, room(u, f) - rng.choice([0, 0, 1])),
            nx=max(0, room(v, f) - rng.choice([0, 0, 1])))
    for k in ("u", "v", "w"):
        for form in ("list", "none", "text"):
            add("invalid", [4], [4], [1], [3, 1], must="TypeError",
                bad=[k, form])
    return cases


def execute(case, mode):
    import warnings
    import numpy as np
    from enc import fx, keep, snapshot, same
    from africanus.gridding.util import estimate_cell_size
    c = case["in"]
    a = {}
    for k in ("u", "v", "w"):
        x = np.array(c[k], dtype=c["dt"])
        a[k] = float(c[k][0]) if c["form"] == "scalar" else x
    ins = [x for x in a.values() if isinstance(x, np.ndarray)]
    if "bad" in c:
        k, form = c["bad"]
        a[k] = dict(list=[4.0], none=None, text="4")[form]
    snap = snapshot(ins)
    kw = {}
    if not c["deff"]:
        kw["factor"] = c["f"][0]/c["f"][1]
    if c["ny"]:
        kw["ny"] = c["ny"]
    if c["nx"]:
        kw["nx"] = c["nx"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        v = estimate_cell_size(a["u"], a["v"], a["w"], **kw)
    v = np.asarray(v, dtype=np.float64)
    # cells per radian
    keep(v)
    return dict(v=fx((180*3600/np.pi)/v, c["S"]),
                inputs_ok=bool(same(snap, ins)))
