"""C09: normal equations and convergence of phase-only calibration."""
from tile import spread
import math

from props.calcommon import *  # noqa: F401,F403
from props.calcommon import make, _arrays, chunked, arr


def execute(case, mode):
    import numpy as np
    from enc import fx, snapshot, same
    c = case["in"]
    d = _arrays(c)
    o = dict(dtype_ok=True, meta_ok=True)
    S = c["S"]
    if c["fn"] == "normal":
        R = d["V"]
        args = [d[k] for k in ("tbi", "tbc", "a1", "a2", "J")]
        ins = args + [R, d["M"], d["F"]]
        snap = snapshot(ins)
        which = c["which"]
        o.update(jhj_has=which != "jhr", jhr_has=which != "jhj")
        jhj = jhr = None
        if c["dask"]:
            import sched
            import africanus.calibration.phase_only.dask as mod
            dd = {k: chunked(c, d, k) for k in
                  ("tbi", "tbc", "a1", "a2", "J", "V", "M", "F")}
            base = [dd[k] for k in ("tbi", "tbc", "a1", "a2", "J")]
            if which == "jhj":
                z = mod.compute_jhj(*base, dd["M"], dd["F"])
            else:
                z = mod.compute_jhr(*base, dd["V"], dd["M"], dd["F"])
            v, = sched.compute([z], c["seed"], twice=c["twice"],
                               optimize=c["seed"] % 2 == 0)
            o["meta_ok"] = bool(z.dtype == v.dtype and z.shape == v.shape
                                and z.chunks == dd["J"].chunks)
            jhj, jhr = (v, None) if which == "jhj" else (None, v)
        else:
            import africanus.calibration.phase_only as mod
            if which == "jhj":
                jhj = mod.compute_jhj(*args, d["M"], d["F"])
            elif which == "jhr":
                jhr = mod.compute_jhr(*args, R, d["M"], d["F"])
            else:
                jhj, jhr = mod.compute_jhj_and_jhr(*args, R, d["M"], d["F"])
        ok = True
        if jhj is not None:
            o["jhj"] = fx(jhj, S)
            ok &= jhj.dtype == d["J"].real.dtype
        if jhr is not None:
            o["jhr"] = fx(jhr, S)
            ok &= jhr.dtype == d["J"].dtype
        o["dtype_ok"] = bool(ok)
        o["inputs_ok"] = same(snap, ins)
        return o
    from africanus.calibration.phase_only import gauss_newton
    if c["fn"] == "step":
        w = np.array(c["sw"], np.float64)**2
        V, M, F, J = d["V"], d["M"], d["F"], d["J"]
        ins = [d["tbi"], d["tbc"], d["a1"], d["a2"], J, V, F, M, w]
        snap = snapshot(ins)
        g, jhj, jhr, k = gauss_newton(*ins, tol=1e-4, maxiter=1)
        o["inputs_ok"] = same(snap, ins)
        o["k"] = int(k)
        o["jhj"] = fx(jhj, S)
        o["jhr"] = fx(jhr, S)
        dp = np.angle(g * np.conj(J) / np.abs(J))
        o["dphase"] = fx(dp, 512)
        o["unit_ok"] = bool(np.allclose(np.abs(g), 1, atol=1e-6))
        return o
    # solve: noise-free data from known phases (milliradians)
    nt = len(c["tbc"])
    ph = np.array(c["phase"]) / 1000.0
    truth = np.exp(1j*ph)
    t = np.repeat(np.arange(nt), c["tbc"])
    M, F = d["M"], d["F"]
    V = np.einsum("rfdk,rfdk,rfdk->rfk", truth[t, d["a1"]], M,
                  np.conj(truth[t, d["a2"]]))
    V = np.where(F != 0, 1e6 + 1e6j, V)     # garbage under the flags
    w = np.array(c["sw"], np.float64)**2
    J = truth.copy() if c["start"] == "truth" else np.ones_like(truth)
    if c["start"] == "part":
        # one time bin, channel or correlation already solved
        ax, i = c["solved"]
        sl = [slice(None)]*5
        sl[ax] = i
        J[tuple(sl)] = truth[tuple(sl)]
    ins = [d["tbi"], d["tbc"], d["a1"], d["a2"], J, V, F, M, w]
    snap = snapshot(ins)
    g, jhj, jhr, k = gauss_newton(*ins, tol=1e-6, maxiter=c["maxiter"])
    o["inputs_ok"] = same(snap, ins)
    o["k"] = int(k)
    o["unit_ok"] = bool(np.allclose(np.abs(g), 1, atol=1e-9))
    err = 0.0
    for r in range(c["nrow"]):
        for f in range(c["nchan"]):
            if np.any(F[r, f]):
                continue
            p, q = d["a1"][r], d["a2"][r]
            e = g[t[r], p, f]*np.conj(g[t[r], q, f]) - \
                truth[t[r], p, f]*np.conj(truth[t[r], q, f])
            err = max(err, float(np.abs(e).max()))
    o["relerr"] = int(min(1e9, err*1e6)) if err == err else 10**9
    return o


def solve_case(rng):
    """All baselines of up to 5 antennas; a flagged antenna sometimes."""
    nant = rng.randint(2, 5)
    nt = rng.randint(1, 3)
    bl = [(p, q) for p in range(nant) for q in range(p + 1, nant)]
    dead = rng.randrange(nant) if nant > 3 and rng.random() < 0.4 else -1
    nchan, ncorr = rng.randint(1, 2), rng.choice([1, 2])
    rows = []
    tbc = []
    for _ in range(nt):
        b = list(bl)
        rng.shuffle(b)
        b = [x if rng.random() < 0.5 else (x[1], x[0]) for x in b]
        rows += b
        tbc.append(len(b))
    nrow = len(rows)
    lim = 400
    c = dict(fn="solve", cmode=0, ncorr=ncorr, nant=nant, nchan=nchan,
             ndir=1, nrow=nrow, tbc=tbc, tch=[nt], rch=[nrow],
             base=rng.choice([0, 7]), a1=[r[0] for r in rows],
             a2=[r[1] for r in rows], must="", dask=False, S=1, tol=1,
             J=arr((nt, nant, nchan, 1, ncorr), lambda: [1, 0]),
             M=arr((nrow, nchan, 1, ncorr), lambda: rng.choice(
                 [[1, 0], [2, 0], [1, 1], [0, 2], [-1, 1]])),
             V=arr((nrow, nchan, ncorr), lambda: [0, 0]),
             phase=arr((nt, nant, nchan, 1, ncorr),
                       lambda: rng.randint(-lim, lim)),
             F=[[[int(dead in r)]*ncorr for _ in range(nchan)]
                for r in rows],
             fdt=rng.choice(["bool", "uint8"]),
             dts=["complex128"]*3, lay="C", cch=[nchan], seed=1,
             twice=False, bad="",
             sw=arr((nrow, nchan, ncorr), lambda: rng.choice([1, 1, 2, 3])),
             maxiter=rng.choice([300, 300, 300, 1, 3]),
             start=rng.choice(["one", "one", "truth", "part", "part"]))
    ax = rng.choice([0, 0, 2, 4])
    c["solved"] = [ax, rng.choice([0, -1, -1])]
    if c["start"] == "part" and [nt, 0, nchan, 0, ncorr][ax] < 2:
        c["start"] = "one"
    if dead < 0 and nant >= 4 and rng.random() < 0.4:
        # flag one row; the graph stays connected
        r = rng.randrange(nrow)
        c["F"][r] = [[1]*ncorr for _ in range(nchan)]
    return c


def gen(rng, tier, emitted):
    cases = []
    quick = tier == "quick"

    def add(kind, modes, grp, c):
        cases.append(dict(kind=kind, modes=modes, grp=grp, **{"in": c}))

    def normal(which, dask=False, x=None, cmode=0):
        c = make(rng, "residual", cmode=cmode, dask=dask, x=x, auto=False)
        c.update(fn="normal", which=which, fdt="bool")
        c["dts"] = [c["dts"][0]]*3
        return c
    lines = [x for _, em in emitted for x in em]
    rng.shuffle(lines)
    for i, x in enumerate(lines[:84 if quick else 400]):
        add("chunking-from-spec", ["interp"], "s",
            normal(["jhj", "jhr"][i % 2], dask=True, x=x))
    for i in range(40 if quick else 400):
        for which in ("jhj", "jhr", "both"):
            add("normal-equations", ["interp"], "n", normal(which))
    for i in range(20 if quick else 200):
        for which in ("jhj", "jhr"):
            add("normal-equations-dask", ["interp"], "d",
                normal(which, dask=True))
    for cm in (1, 2):
        for which in ("jhj", "jhr"):
            c = normal(which, dask=True, cmode=cm)
            c["must"] = "NotImplementedError"
            add("unsupported", ["interp"], "u", c)

    def step(i):
        c = make(rng, "residual", cmode=0, auto=False)
        nt = len(c["tbc"])
        c.update(fn="step", fdt="bool", dts=["complex128"]*3,
                 S=1024, tol=8)
        c["J"] = arr((nt, c["nant"], c["nchan"], c["ndir"], c["ncorr"]),
                     lambda: rng.choice([[1, 0], [0, 1], [-1, 0], [0, -1]]))
        c["sw"] = arr((c["nrow"], c["nchan"], c["ncorr"]),
                      lambda: rng.choice([0, 1, 1, 2]))
        return c
    for i in range(60 if quick else 600):
        add("solver-step", ["interp"], "t", step(i))
    for i in range(120 if quick else 900):
        add("solve", ["interp"], "v", solve_case(rng))
    for i in range(8 if quick else 80):
        for which in ("jhj", "jhr", "both"):
            c = normal(which)
            c.update(dts=["complex128"]*3, lay="C")
            add("compiled", ["jit"], which, c)
        c = step(i)
        c.update(lay="C")
        add("compiled-step", ["jit"], "step", c)
        c = solve_case(rng)
        c.update(fdt="bool")
        add("compiled-solve", ["jit"], "solve", c)
    rows = dict(axes=[[x, 0] for x in ("a1", "a2", "M", "V", "F", "sw")],
                fill=[["M", 0, None]], count=["nrow", "tbc"], chs="rch",
                one=True, when=lambda c: len(c["tbc"]) == 1)
    chan = dict(axes=[["J", 2], ["M", 1], ["V", 1], ["F", 1]],
                out=[["jhj", 2], ["jhr", 2]], count=["nchan"], chs="cch")
    spread(rng, cases, 30 if tier == "quick" else 200,
           dict(normal=[chan, rows], step=[rows]), (17, 33, 65))
    return cases
