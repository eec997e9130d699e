"""C18: direction cosines."""
from tile import spread
from props.skycommon import ch
TRACE = "CoordTrace"
MC = [dict(module="CoordMC", cfg="CoordMC.cfg", workers=2)]
NPROC = {"interp": 4, "jit": 2}


def case(rng, tri, dask, fn=None, f32=None):
    """Sources of one phase centre declination."""
    z = rng.choice(sorted(tri))
    src = [rng.choice(tri[z]) for _ in range(rng.randint(1, 6))]
    f32 = rng.random() < 0.2 if f32 is None else f32
    ns = len(src)
    return dict(fn=fn or rng.choice(["fwd", "back"]), pc=list(z),
                src=[[list(a), list(b)] for a, b in src],
                n=rng.choice([2, 3]), ra0=rng.choice([0, 0, 1, 3, -2]),
                nopc=list(z) == [1, 0, 1] and rng.random() < 0.5,
                turns=[rng.choice([0, 0, 0, 1, -1]) for _ in src],
                dt="float32" if f32 else "float64",
                S=1 << 9 if f32 else 1 << 16,
                tol=2, dask=dask, chs=[ch(rng, ns, dask)], must="",
                lay=rng.choice(["C", "C", "strided", "F"]),
                seed=rng.randint(0, 10**6))


def gen(rng, tier, emitted):
    cases = []
    q = 1 if tier == "quick" else 8
    tri = {}
    for _, em in emitted:
        for x in em:
            tri.setdefault(tuple(x["z"]), []).append(
                (tuple(x["a"]), tuple(x["b"])))
    for k in tri:
        tri[k].sort()

    def add(kind, modes, grp, c):
        cases.append(dict(kind=kind, modes=modes, grp=grp, **{"in": c}))
    # every direction the specification reaches, forward and back
    for z in sorted(tri):
        for fn in ("fwd", "back"):
            for n in (2, 3):
                c = case(rng, tri, False, fn, False)
                c.update(pc=list(z), n=n, nopc=False,
                         src=[[list(a), list(b)] for a, b in tri[z]])
                c["turns"] = [0]*len(c["src"])
                c["chs"] = [[len(c["src"])]]
                add("all-directions", ["interp", "jit"], "", c)
    for i in range(250*q):
        add("random", ["interp"], "", case(rng, tri, False))
        add("chunked", ["interp"], "", case(rng, tri, True))
    for i in range(20*q):
        c = case(rng, tri, i % 2 == 0, f32=False)
        c["lay"] = "C"
        add("compiled", ["jit"], "", c)
    for i in range(30*q):
        c = case(rng, tri, False, "fwd", False)
        c.update(n=3, nopc=False, astropy=True)
        add("astropy", ["interp"], "", c)
    for i in range(6):
        c = case(rng, tri, False)
        c["must"] = "ValueError"
        add("bad-shape", ["interp"], "", c)
    axes = [dict(axes=[["src", 0], ["turns", 0]], out=[["v", 0]], chs=0)]
    spread(rng, cases, 40*q, dict(fwd=axes, back=axes))
    return cases


def execute(case, mode):
    import numpy as np
    from enc import fx, layout, snapshot, same
    c = case["in"]
    dask, n = c["dask"], c["n"]
    o = dict(meta_ok=True)
    ins = []

    def A(x):
        a = layout(np.array(x).astype(c["dt"]), c["lay"])
        ins.append(a)
        return a

    def D(a, *chunks):
        import dask.array as da
        return da.from_array(a, chunks=chunks, name=False) if dask else a

    def ang(x):
        return np.arctan2(x[1], x[0])
    if dask:
        import africanus.coordinates.dask as m
    else:
        import africanus.coordinates as m
    ra0 = 0.0 if c["nopc"] else float(c["ra0"])
    pc = None if c["nopc"] else A([ra0, ang(c["pc"])])
    tau = 2*np.pi if c["dt"] == "float64" else 0.0
    cs = tuple(c["chs"][0])
    if c["fn"] == "fwd":
        x = A([[ra0 + ang(a) + t*tau, ang(b)]
               for (a, b), t in zip(c["src"], c["turns"])])
        f = m.radec_to_lm if n == 2 else m.radec_to_lmn
        k = 2
    else:
        z = c["pc"]
        v = []
        for a, b in c["src"]:
            d = a[2]*b[2]*z[2]
            v.append([b[0]*a[1]*z[2]/d,
                      (b[1]*z[0]*a[2] - b[0]*z[1]*a[0])/d,
                      (b[1]*z[1]*a[2] + b[0]*z[0]*a[0])/d][:n])
        x = A(v)
        f = m.lm_to_radec if n == 2 else m.lmn_to_radec
        k = n
    if c["must"]:
        x = A(np.zeros((3, k + 1)))
        ins.pop()
    if c.get("astropy"):
        # whole sky objects instead of arrays of angles
        from astropy.coordinates import SkyCoord
        from africanus.coordinates.coordinates import astropy_radec_to_lmn

        def f(a, b):
            return astropy_radec_to_lmn(
                SkyCoord(a[:, 0], a[:, 1], unit="rad"),
                SkyCoord(b[0], b[1], unit="rad"))
    snap = snapshot(ins)
    args = [D(x, cs, k)] if not c["must"] else [x]
    if pc is not None:
        args.append(D(pc, 2))
    z = f(*args)
    v = z
    if dask:
        import sched
        v, = sched.compute([z], c["seed"], twice=c["seed"] % 3 == 0)
        o["meta_ok"] = bool(z.dtype == v.dtype and z.shape == v.shape
                            and z.chunks[0] == cs)
    o["dtype_ok"] = bool(v.dtype == np.dtype(c["dt"]))
    o["inputs_ok"] = bool(same(snap, ins))
    v = v.astype(np.float64)
    if c["fn"] == "back":
        v = np.stack([np.stack([np.cos(v[:, 0]-ra0), np.sin(v[:, 0]-ra0)],
                               -1),
                      np.stack([np.cos(v[:, 1]), np.sin(v[:, 1])], -1)], 1)
    o["v"] = fx(v, c["S"])
    return o
