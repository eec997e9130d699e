"""C16: spectral index fits."""
from tile import spread
from math import gcd
from props.skycommon import ch

TRACE = "SpiTrace"
MC = [dict(module="SpiMC", cfg="SpiMC.cfg", workers=4)]
MC_THOROUGH = [dict(module="SpiMC", cfg="SpiMC_thorough.cfg", workers=8)]
NPROC = {"jit": 4}
LIM = 2*10**9


def sums(c, i, al, I0):
    k, w = c["k"], c["w"]
    n = range(len(k))
    m = max(0, -min(al*x for x in k))
    J = [c["beam"][i][f] * 2**(al*k[f] + m) for f in n]
    S = [sum(w[f]*J[f]**2*k[f]**p for f in n) for p in range(3)]
    R = [2**m*c["d"][i][f] - I0*J[f] for f in n]
    T = [sum(w[f]*J[f]*R[f]*k[f]**p for f in n) for p in range(2)]
    return S, R, T, sum(w[f]*R[f]**2 for f in n)


def fits(c, i, al, I0):
    """Every integer the specification forms stays below 2^31."""
    S, R, T, L = sums(c, i, al, I0)
    D = S[0]*S[2] - S[1]**2
    dof = len(c["k"]) - 2
    if D <= 0 or dof < 1 or abs(al) > 2:
        return False
    big = [max(3*x*x for x in R), S[0]*S[2], 100*L*S[0], 100*L*S[2], 3*dof*D,
           100*abs(S[0]*T[1]) + 100*abs(S[1]*T[0]),
           100*abs(S[2]*T[0]) + 100*abs(S[1]*T[1])]
    # v/256*d terms
    return all(2*x < LIM for x in big)


def chans(rng):
    n = rng.randint(3, 5)
    while True:
        k = [rng.randint(-2, 2) for _ in range(n)]
        w = [rng.choice([0, 1, 1, 2, 3]) for _ in range(n)]
        if len({a for a, b in zip(k, w) if b}) >= 2:
            return k, w


def common(rng, c, dask, nc):
    c.update(dask=dask, chs=[ch(rng, nc, dask), ch(rng, len(c["k"]), dask)],
             lay=rng.choice(["C", "C", "strided", "F"]),
             f0=rng.choice([1.0, 1.4e9]), must="", tol=2,
             seed=rng.randint(0, 10**6))
    return c


def step(rng, dask=False, lay=None):
    while True:
        k, w = (lay["k"], lay["w"]) if lay else chans(rng)
        nc = rng.randint(1, 4)
        beam = [[rng.choice([1, 1, 2]) for _ in k] for _ in range(nc)]
        c = dict(fn="step", k=k, w=w, beam=beam,
                 d=[[rng.randint(-6, 9) for _ in k] for _ in range(nc)],
                 al=[rng.randint(-2, 2) for _ in range(nc)],
                 I0=[rng.choice([-2, 1, 2, 3]) for _ in range(nc)])
        if all(fits(c, i, c["al"][i], c["I0"][i]) for i in range(nc)):
            break
        if lay and rng.random() < 0.1:
            return None
    c.update(var=True, start="given", dt="float64", nobeam=False)
    if all(b == 1 for x in beam for b in x):
        c["nobeam"] = rng.random() < 0.5
    return common(rng, c, dask, nc)


def comp(rng, k, w, beam, al):
    """Data whose least squares solution is (al, I0), and I0."""
    n = len(k)
    m = max(0, -min(al*x for x in k))
    J = [beam[f]*2**(al*k[f] + m) for f in range(n)]
    used = [f for f in range(n) if w[f]]
    I0 = rng.choice([8, 16, 24, 40])
    r = [0]*n
    if len(used) >= 3 and rng.random() < 0.8:
        i, j, q = rng.sample(used, 3)
        a = {f: w[f]*J[f] for f in (i, j, q)}
        A = a[i]*a[j]*a[q]
        v = {i: (k[q]-k[j])*A//a[i], j: (k[i]-k[q])*A//a[j],
             q: (k[j]-k[i])*A//a[q]}
        g = gcd(gcd(v[i], v[j]), v[q])
        if g:
            for f in v:
                r[f] = v[f]//g*rng.choice([1, -1])
            s = rng.choice([1, -1])
            for f in v:
                r[f] = v[f]//g*s
    # data must be integers: scale everything by 2^m
    d = [I0*J[f] + r[f] for f in range(n)]
    if max(abs(r[f])/(I0*J[f]) for f in range(n)) > 0.12:
        return None
    if rng.random() < 0.5:
        for f in range(n):
            if not w[f]:
                d[f] = rng.randint(1, 99)
    return d, I0*2**m


def fit(rng, dask=False, dt="float64"):
    while True:
        k, w = chans(rng)
        nc = rng.randint(1, 4)
        beam = [[rng.choice([1, 1, 2]) for _ in k] for _ in range(nc)]
        c = dict(fn="fit", k=k, w=w, beam=beam, d=[], al=[], I0=[])
        ok = True
        for i in range(nc):
            al = rng.choice([-2, -1, -1, 0, 1])
            x = comp(rng, k, w, beam[i], al)
            if x is None:
                ok = False
                break
            c["d"].append(x[0])
            c["al"].append(al)
            c["I0"].append(x[1])
        if ok and all(fits(c, i, c["al"][i], c["I0"][i])
                      for i in range(nc)) and max(c["I0"]) < 2000:
            break
    c.update(var=dt == "float64", dt=dt, nobeam=False,
             start=rng.choice(["near", "near", "default"]))
    if any(x == 0 for x in w):
        c["start"] = "near"
    if any(a not in (-1, 0) for a in c["al"]):
        c["start"] = "near"
    if all(b == 1 for x in beam for b in x):
        c["nobeam"] = rng.random() < 0.5
    c = common(rng, c, dask, nc)
    if dt == "float32":
        c["tol"] = 60
    return c


def gen(rng, tier, emitted):
    cases = []
    q = 1 if tier == "quick" else 8

    def add(kind, modes, grp, c):
        if c:
            cases.append(dict(kind=kind, modes=modes, grp=grp, **{"in": c}))
    lines = [x for _, em in emitted for x in em]
    rng.shuffle(lines)
    for x in lines[:150 if q == 1 else 3000]:
        add("step-from-spec", ["interp"], "", step(rng, rng.random() < 0.4,
                                                   x))
    for dask in (False, True):
        d = "-chunked" if dask else ""
        for i in range(150*q):
            add("step" + d, ["interp"], "", step(rng, dask))
            add("fit" + d, ["interp"], "",
                fit(rng, dask, "float32" if i % 8 == 0 else "float64"))
    for i in range(4):
        c = fit(rng)
        c.update(dt="int32", must="ValueError")
        add("bad-dtype", ["interp"], "", c)
    for i in range(15*q):
        c = step(rng, i % 2 == 0)
        c["lay"] = "C"
        add("step-compiled", ["jit"], "a", c)
        c = fit(rng, i % 2 == 0)
        c["lay"] = "C"
        add("fit-compiled", ["jit"], "a", c)
    names = ("a", "i", "da", "di", "va", "vi")
    spread(rng, cases, 30*q, dict(step=[
        dict(axes=[["d", 0], ["beam", 0], ["al", 0], ["I0", 0]], chs=0,
             out=[[x, 0] for x in names])]))
    return cases


def execute(case, mode):
    import numpy as np
    from enc import fx, keep, layout, snapshot, same
    c = case["in"]
    dask = c["dask"]
    o = dict(meta_ok=True)
    ins = []
    dt = c["dt"]

    def A(x, t=dt):
        a = layout(np.array(x).astype(t), c["lay"])
        ins.append(a)
        return a

    def D(a, *chunks):
        import dask.array as da
        return da.from_array(a, chunks=chunks, name=False) if dask else a
    cs = [tuple(x) for x in c["chs"]]
    f0 = c["f0"]
    data, w = A(c["d"]), A(c["w"])
    fr = A(np.array([f0*2.0**k for k in c["k"]]))
    beam = None if c["nobeam"] else A(c["beam"])
    al, I0 = np.array(c["al"], float), np.array(c["I0"], float)
    kw = {}
    if c["start"] != "default":
        if c["start"] == "near":
            sg = np.where(np.arange(al.size) % 2 == 0, 1.0, -1.0)
            a0, i0 = al + 0.2*sg, I0*(1 - 0.1*sg)
        else:
            a0, i0 = al, I0
        kw = dict(alphai=D(A(a0), cs[0]), I0i=D(A(i0), cs[0]))
    if beam is not None:
        kw["beam"] = D(beam, *cs)
    if c["fn"] == "step":
        kw.update(maxiter=1)
    else:
        kw.update(tol=1e-10 if dt == "float64" else 1e-3, maxiter=200)
    snap = snapshot(ins)
    if dask:
        from africanus.model.spi.dask import fit_spi_components
    else:
        from africanus.model.spi import fit_spi_components
    z = fit_spi_components(D(data, *cs), D(w, cs[1]), D(fr, cs[1]), f0, **kw)
    v = z
    if dask:
        import sched
        v, = sched.compute([z], c["seed"], twice=c["seed"] % 3 == 0)
        o["meta_ok"] = bool(z.dtype == v.dtype and z.shape == v.shape and
                            z.chunks == ((4,), cs[0]))
    o["meta_ok"] = o["meta_ok"] and v.shape == (4, al.size)
    o["dtype_ok"] = bool(v.dtype == np.dtype(dt))
    o["inputs_ok"] = bool(same(snap, ins))
    keep(v)
    v = v.astype(np.float64)
    ln2 = np.log(2.0)
    o["a"], o["i"] = fx(v[0], 1e5), fx(v[2], 100)
    o["da"] = fx((v[0] - al)*ln2*I0, 100)
    o["di"] = fx(v[2] - I0, 100)
    o["va"] = fx(v[1]*ln2**2*I0**2, 100)
    o["vi"] = fx(v[3], 100)
    return o
