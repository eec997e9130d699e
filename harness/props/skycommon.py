"""Phase, feed rotation, transform, parallactic angle, beam and Zernike."""
TRACE = "SkyTrace"
MC = [dict(module="SkyMC", cfg="SkyMC.cfg", workers=4)]

SRC = [(0, 0, 1, 1), (1, 2, 2, 3), (-2, 1, 2, 3), (2, -2, 1, 3), (0, 3, 4, 5),
       (-3, 0, 4, 5), (4, 0, 3, 5), (2, 3, 6, 7), (-3, 2, 6, 7), (6, -2, 3, 7),
       (0, -4, 3, 5)]
ANG = [(1, 0, 1), (0, 1, 1), (-1, 0, 1), (0, -1, 1), (3, 4, 5), (4, 3, 5),
       (-3, 4, 5), (-4, -3, 5), (3, -4, 5), (4, -3, 5)]
# Gaussian integers with integer modulus
PYTH = [(0, 0, 0), (1, 0, 1), (0, 1, 1), (-1, 0, 1), (3, 4, 5), (-4, 3, 5),
        (0, -2, 2), (5, 12, 13), (6, 8, 10), (-3, -4, 5), (8, -6, 10),
        (2, 0, 2)]


def split(rng, n, k):
    k = max(1, min(k, n))
    cuts = sorted(rng.sample(range(1, n), k - 1)) if k > 1 else []
    return [b - a for a, b in zip([0] + cuts, cuts + [n])]


def ch(rng, n, dask):
    return split(rng, n, rng.randint(1, 3)) if dask else [n]


def phase(rng, dask=False, f32=False):
    ns, nr, nf = rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 4)
    m = 1 if f32 else rng.choice([1, 5, 40])
    D = 105
    if f32:
        srcs = [(0, 0, 1, 1), (1, 2, 2, 3), (-2, 1, 2, 3), (2, -2, 1, 3)]
        D = 3
    else:
        srcs = SRC
    return dict(fn="phase", src=[list(rng.choice(srcs)) for _ in range(ns)],
                uvw=[[rng.randint(-3*m, 3*m) for _ in range(3)]
                     for _ in range(nr)],
                freq=[rng.randint(1, 3 if f32 else 6) for _ in range(nf)],
                D=D, conv=rng.choice(["fourier", "casa"]),
                pos=rng.random() < 0.5, f0=rng.choice([1, 1420000000]),
                dts=["float32"]*3 if f32 else
                (["float64"]*3 if rng.random() < 0.7 else
                 ["float64", rng.choice(["float32", "float64"]),
                  rng.choice(["float32", "float64"])]),
                dask=dask, chs=[ch(rng, ns, dask), ch(rng, nr, dask),
                                ch(rng, nf, dask)],
                lay=rng.choice(["C", "C", "strided", "F"]),
                seed=rng.randint(0, 10**6), tol=0)


def feed(rng, dask=False):
    nd = rng.randint(1, 3)
    shape = [rng.randint(1, 3) for _ in range(nd)]
    n = 1
    for s in shape:
        n *= s
    return dict(fn="feed", shape=shape,
                ang=[list(rng.choice(ANG)) for _ in range(n)],
                feed=rng.choice(["linear", "circular"]),
                dt=rng.choice(["float32", "float64"]), dask=dask,
                chs=[ch(rng, s, dask) for s in shape], must="",
                lay=rng.choice(["C", "C", "strided", "F"]),
                turns=rng.choice([0, 0, 1, -1]),
                seed=rng.randint(0, 10**6), tol=0)


def transform(rng, dask=False):
    ns, nt, na, nc = (rng.randint(1, 3) for _ in range(4))
    ri = rng.randint
    return dict(fn="transform", nsrc=ns, ntime=nt, nant=na, nchan=nc,
                lm=[[ri(-9, 9), ri(-9, 9)] for _ in range(ns)],
                ang=[[list(rng.choice(ANG)) for _ in range(na)]
                     for _ in range(nt)],
                pe=[[[ri(-5, 5), ri(-5, 5)] for _ in range(na)]
                    for _ in range(nt)],
                sc=[[ri(1, 4) for _ in range(nc)] for _ in range(na)],
                freq=[ri(1, 900) for _ in range(nc)],
                dt=rng.choice(["", "float32", "float64"]), dask=dask,
                chs=[ch(rng, x, dask) for x in (ns, nt, na, nc)],
                lay=rng.choice(["C", "C", "strided"]),
                seed=rng.randint(0, 10**6), tol=0)


def parangle(rng, backend="test", dask=False):
    nt, na = rng.randint(1, 4), rng.randint(1, 4)
    return dict(fn="parangle", ntime=nt, nant=na, backend=backend, must="",
                t=[rng.randint(1, 9) for _ in range(nt)],
                pos=[[rng.randint(-9, 9) for _ in range(3)]
                     for _ in range(na)], dask=dask,
                chs=[ch(rng, nt, dask), ch(rng, na, dask)],
                # days, metres and radians for the real backends
                days=[rng.randint(50000000, 57000000) for _ in range(nt)],
                place=[[rng.randint(-1000, 1000) for _ in range(3)]
                       for _ in range(2)],
                fc=[rng.randint(0, 6283), rng.randint(-1560, 1560)],
                seed=rng.randint(0, 10**6))


def sky_vectors(t, pos, fc):
    """The field centre, the pole and the zenith of a place (WGS84) at a time
    (MJD seconds), in the frame of date; good to a few arc minutes."""
    import numpy as np
    d = t/86400.0 - 51544.5
    cy = d/36525.0
    as_ = np.pi/180/3600
    zeta, z, th = (x*cy*as_ for x in (2306.2181, 2306.2181, 2004.3109))

    def rz(a):
        c, s = np.cos(a), np.sin(a)
        return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])

    def ry(a):
        c, s = np.cos(a), np.sin(a)
        return np.array([[c, 0, s], [0, 1, 0], [-s, 0, c]])
    s = np.array([np.cos(fc[1])*np.cos(fc[0]), np.cos(fc[1])*np.sin(fc[0]),
                  np.sin(fc[1])])
    s = rz(z) @ ry(-th) @ rz(zeta) @ s
    gmst = np.deg2rad((280.46061837 + 360.98564736629*d) % 360.0)
    x, y, w = pos
    lon, r, e2 = np.arctan2(y, x), np.hypot(x, y), 0.00669437999014
    lat = np.arctan2(w, r*(1 - e2))
    for _ in range(5):
        n = 6378137.0/np.sqrt(1 - e2*np.sin(lat)**2)
        h = r/np.cos(lat) - n
        lat = np.arctan2(w, r*(1 - e2*n/(n + h)))
    zen = np.array([np.cos(lat)*np.cos(lon + gmst),
                    np.cos(lat)*np.sin(lon + gmst), np.sin(lat)])
    return dict(s=[int(round(v*16384)) for v in s], p=[0, 0, 16384],
                z=[int(round(v*16384)) for v in zen])


def beam(rng, dask=False):
    ns, nt, na, nc = (rng.randint(1, 3) for _ in range(4))
    ri = rng.randint
    lw, mh, nud = ri(2, 4), ri(2, 4), ri(2, 4)
    fmap = [8]
    for i in range(nud - 1):
        fmap.append(fmap[-1] + rng.choice([2, 4]))
    inside = list(range(fmap[0], fmap[-1] + 1))
    out = [4, 12*fmap[-1]//8 if (3*fmap[-1]) % 2 == 0 else 2*fmap[-1],
           2*fmap[-1], 3*fmap[-1]//2]
    out = [x for x in out if (2*x) % (fmap[0] if x < fmap[0]
                                      else fmap[-1]) == 0]
    shape = rng.choice([[1], [2], [2, 2]])
    n = 4 if len(shape) == 2 else shape[0]
    c = dict(fn="beam", nsrc=ns, ntime=nt, nant=na, nchan=nc, ncorr=n,
             shape=shape, lw=lw, mh=mh,
             step=[rng.choice([1, 2]), rng.choice([1, 2])],
             low=[ri(-3, 0), ri(-3, 0)], fmap=fmap,
             freq=[rng.choice(inside) if rng.random() < 0.7
                   else rng.choice(out) for _ in range(nc)],
             lm=[[ri(-3, 3), ri(-3, 3)] for _ in range(ns)],
             ang=[[list(rng.choice(ANG if rng.random() < 0.6 else ANG[:1]))
                   for _ in range(na)] for _ in range(nt)],
             pe=[[[[ri(-1, 1), ri(-1, 1)] for _ in range(nc)]
                  for _ in range(na)] for _ in range(nt)],
             sc=[[[ri(1, 4), ri(1, 4)] for _ in range(nc)]
                 for _ in range(na)],
             beam=[[[[list(rng.choice(PYTH)) for _ in range(n)]
                     for _ in range(nud)] for _ in range(mh)]
                   for _ in range(lw)],
             dt=rng.choice(["complex64", "complex128", "complex128"]),
             dask=dask, chs=[ch(rng, x, dask) for x in (ns, nt, na, nc)],
             must="", lay=rng.choice(["C", "C", "strided"]),
             seed=rng.randint(0, 10**6))
    c["tol"] = 3
    if c["dt"] == "complex64":
        c["tol"] = 4
    return c


def zernike(rng, dask=False):
    ns, nt, na, nc = (rng.randint(1, 3) for _ in range(4))
    shape = rng.choice([[1], [2], [2, 2]])
    n = 4 if len(shape) == 2 else shape[0]
    ri = rng.randint
    npoly = ri(1, 4)
    return dict(fn="zernike", nsrc=ns, ntime=nt, nant=na, nchan=nc, ncorr=n,
                shape=shape, npoly=npoly,
                xy=[[[[[ri(-4, 4), ri(-4, 4)] for _ in range(nc)]
                      for _ in range(na)] for _ in range(nt)]
                    for _ in range(ns)],
                noll=[[[[ri(0, 20) for _ in range(npoly)] for _ in range(n)]
                       for _ in range(nc)] for _ in range(na)],
                coef=[[[[[ri(-3, 3), ri(-3, 3)] for _ in range(npoly)]
                        for _ in range(n)] for _ in range(nc)]
                      for _ in range(na)],
                dt="complex128", dask=dask,
                chs=[ch(rng, x, dask) for x in (ns, nt, na, nc)],
                seed=rng.randint(0, 10**6), tol=2)


def _angle(x):
    import math
    return math.atan2(x[1], x[0])


def execute(case, mode):
    import numpy as np
    from enc import fx, layout, snapshot, same
    c = case["in"]
    fn, dask = c["fn"], c["dask"]
    o = dict(meta_ok=True)
    ins = []

    def A(x, dt="float64", lay=None):
        a = layout(np.array(x, dtype=np.float64).astype(dt),
                   lay or c.get("lay", "C"))
        ins.append(a)
        return a

    def D(a, *chunks):
        import dask.array as da
        return da.from_array(a, chunks=chunks, name=False) if dask else a

    def run(z):
        if not dask:
            return z
        import sched
        v, = sched.compute([z], c["seed"], twice=c["seed"] % 3 == 0,
                           optimize=c["seed"] % 2 == 0)
        o["meta_ok"] = bool(z.dtype == v.dtype and z.shape == v.shape)
        return v

    def mod():
        if dask:
            import africanus.rime.dask as m
        else:
            import africanus.rime as m
        return m

    if fn == "phase":
        light = 299792458.0
        S = 1 << 20
        Dn = c["D"]
        if c["pos"]:
            f0 = float(c["f0"])
        else:
            f0 = 1.0
        lam = light/f0
        lm = A([[s[0]/s[3], s[1]/s[3]] for s in c["src"]], c["dts"][0])
        uvw = A(np.array(c["uvw"])*(Dn*lam/4.0), c["dts"][1])
        freq = A(np.array(c["freq"])*f0, c["dts"][2])
        snap = snapshot(ins)
        cs = c["chs"]
        args = (D(lm, tuple(cs[0]), 2), D(uvw, tuple(cs[1]), 3),
                D(freq, tuple(cs[2])))
        if c["conv"] == "fourier" and c["seed"] % 2:
            v = run(mod().phase_delay(*args))
        else:
            v = run(mod().phase_delay(*args, convention=c["conv"]))
        o["dtype_ok"] = bool(v.dtype == np.result_type(
            *c["dts"], np.complex64))
        if "float32" in c["dts"]:
            S = 1 << 12
        o["S"] = S
        o["v"] = fx(v, S)
    elif fn == "feed":
        pa = A(np.array([_angle(x) + 2*np.pi*c["turns"] for x in c["ang"]])
               .reshape(c["shape"]), c["dt"])
        snap = snapshot(ins)
        dpa = D(pa, *(tuple(x) for x in c["chs"]))
        if c["must"] == "ValueError" and c["feed"] == "linear":
            dpa = dpa.astype(np.int32)
        v = run(mod().feed_rotation(dpa, feed_type=c["feed"]))
        o["dtype_ok"] = v.dtype == (np.complex64 if c["dt"] == "float32"
                                    else np.complex128)
        o["meta_ok"] = o["meta_ok"] and \
            v.shape == tuple(c["shape"]) + (2, 2)
        S = (1 << 18) if c["dt"] == "float32" else (1 << 26)
        o["S"] = S
        o["v"] = fx(v.reshape(-1, 4), S)
    elif fn == "transform":
        lm = A(c["lm"])
        pa = A([[_angle(x) for x in r] for r in c["ang"]])
        pe = A(c["pe"])
        sc = A(c["sc"])
        fr = A(c["freq"])
        snap = snapshot(ins)
        s, t, a, f = (tuple(x) for x in c["chs"])
        kw = {} if c["dt"] == "" else {"dtype": np.dtype(c["dt"]).type}
        v = run(mod().transform_sources(
            D(lm, s, 2), D(pa, t, a), D(pe, t, a, 2), D(sc, a, f),
            D(fr, f), **kw))
        o["dtype_ok"] = v.dtype == np.dtype(c["dt"] or "float64")
        S = 1 << 16 if c["dt"] != "float32" else 1 << 10
        o["S"] = S
        o["v"] = fx(v, S)
    elif fn == "parangle":
        S = 1
        if c["backend"] == "test":
            tt = A(c["t"])
            pp = A(c["pos"])
        else:
            S = 1 << 24
            tt = A(np.array(c["days"])*86.4)
            at = np.array(c["place"], dtype=np.float64) + [0.5, 0.5, 0]
            at *= (6378137.0 + c["seed"] % 3000)/np.sqrt(
                (at**2).sum(1))[:, None]
            pp = A(at[np.arange(c["nant"]) % 2] + np.array(c["pos"])*100.0)
        fc = A([c["fc"][0]/1000.0, c["fc"][1]/1000.0])
        snap = snapshot(ins)
        v = run(mod().parallactic_angles(
            D(tt, tuple(c["chs"][0])), D(pp, tuple(c["chs"][1]), 3),
            D(fc, 2), backend=c["backend"]))
        v = np.asarray(v)
        o["dtype_ok"] = v.dtype == np.float64
        o["S"] = S
        o["v"] = fx(v, S)
        if c["backend"] != "test":
            o["geo"] = [[sky_vectors(x, y, fc) for y in pp] for x in tt]
            o["unit"] = [[[int(round(np.cos(x)*16384)),
                           int(round(np.sin(x)*16384))] for x in r]
                         for r in v]
            from africanus.rime import parallactic_angles as pf
            one = np.array([[float(np.asarray(
                                pf(tt[i:i+1], pp[j:j+1], fc,
                                   backend=c["backend"]))[0, 0])
                             for j in range(len(pp))]
                            for i in range(len(tt))])
            o["one"] = fx(one, S)
    elif fn == "beam":
        b = np.array(c["beam"], dtype=np.float64)
        bm = layout((b[..., 0] + 1j*b[..., 1]).astype(c["dt"])
                    .reshape(b.shape[:3] + tuple(c["shape"])), "C")
        ins.append(bm)
        U = 0.015625
        ext = A([[c["low"][0]*U, (c["low"][0] + (c["lw"]-1)*c["step"][0])*U],
                 [c["low"][1]*U, (c["low"][1] + (c["mh"]-1)*c["step"][1])*U]])
        fm = A(np.array(c["fmap"])*1e8, lay="C")
        lm = A(np.array(c["lm"])*U)
        pa = A([[_angle(x) for x in r] for r in c["ang"]])
        pe = A(np.array(c["pe"])*U)
        sc = A(np.array(c["sc"])/2.0)
        fr = A(np.array(c["freq"])*1e8)
        snap = snapshot(ins)
        s, t, a, f = (tuple(x) for x in c["chs"])
        nsh = tuple((x,) for x in c["shape"])
        v = run(mod().beam_cube_dde(
            D(bm, *((bm.shape[0],), (bm.shape[1],), (bm.shape[2],)) + nsh),
            D(ext, 2, 2), D(fm, fm.shape[0]), D(lm, s, 2), D(pa, t, a),
            D(pe, t, a, f, 2), D(sc, a, f, 2), D(fr, f)))
        o["dtype_ok"] = v.dtype == np.dtype(c["dt"])
        o["meta_ok"] = bool(o["meta_ok"] and
                            v.shape[4:] == tuple(c["shape"]))
        o["S"] = 512
        o["v"] = fx(v.reshape(v.shape[:4] + (-1,)), 512)
    elif fn == "zernike":
        xy = np.array(c["xy"], dtype=np.float64)/4.0
        coords = np.empty((3,) + xy.shape[:-1])
        coords[0], coords[1], coords[2] = xy[..., 0], xy[..., 1], 1e9
        z = np.array(c["coef"], dtype=np.float64)
        sh = (c["nant"], c["nchan"]) + tuple(c["shape"]) + (c["npoly"],)
        coef = (z[..., 0] + 1j*z[..., 1]).reshape(sh)
        noll = np.array(c["noll"], dtype=np.int64).reshape(sh)
        ins += [coords, coef, noll]
        snap = snapshot(ins)
        s, t, a, f = (tuple(x) for x in c["chs"])
        nsh = tuple((x,) for x in c["shape"]) + ((c["npoly"],),)
        v = run(mod().zernike_dde(D(coords, 3, s, t, a, f),
                                  D(coef, a, f, *nsh),
                                  D(noll, a, f, *nsh)))
        o["dtype_ok"] = v.dtype == coef.dtype
        o["meta_ok"] = bool(o["meta_ok"] and
                            v.shape[4:] == tuple(c["shape"]))
        o["S"] = 512
        o["v"] = fx(v.reshape(v.shape[:4] + (-1,)), 512)
    o["dtype_ok"] = bool(o["dtype_ok"])
    o["inputs_ok"] = same(snap, ins)
    return o
