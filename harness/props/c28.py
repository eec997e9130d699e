"""C28: the GPU and JAX forms compute what the CPU forms should compute."""
from props import c13, predcommon, skycommon

HISTORY = False
TRACE = "GpuTrace"
MC = [dict(module="GpuMC", cfg="GpuMC.cfg", workers=2)]
MC_THOROUGH = [dict(module="GpuMC", cfg="GpuMC_thorough.cfg", workers=8)]
NPROC = {"interp": 8}
STOKES, LIN, CIR = c13.ST, c13.LI, c13.CI
PAIRS = [(["I", "Q"], ["XX", "YY"]), (["I", "V"], ["RR", "LL"]),
         (["U", "V"], ["XY", "YX"]), (["Q", "U"], ["RL", "LR"]),
         (["XX", "YY"], ["I", "Q"]), (["XY", "YX"], ["U", "V"]),
         (["RR", "LL"], ["I", "V"]), (["RL", "LR"], ["Q", "U"])]


def phase(rng, big):
    c = skycommon.phase(rng, f32=rng.random() < 0.3)
    if big:
        nr, nf = rng.choice([(35, 3), (3, 35), (17, 18), (33, 33)])
        c["src"] = c["src"][:1]
        c["uvw"] = [[rng.randint(-3, 3) for _ in range(3)]
                    for _ in range(nr)]
        c["freq"] = [rng.randint(1, 3) for _ in range(nf)]
    c.update(conv="fourier", lay="C")
    c["seed"] |= 1
    if "float32" not in c["dts"] or rng.random() < 0.8:
        c["dts"] = [c["dts"][0]]*3
    c["tol"] = 40 if "float32" in c["dts"] else 4
    if "float32" in c["dts"] and c["dts"][0] == "float64":
        # keep the phase small when any operand is single precision
        c["uvw"] = [[x % 4 - 2 for x in r] for r in c["uvw"]]
        c["freq"] = [min(x, 3) for x in c["freq"]]
        c["src"] = [[0, 0, 1, 1] if s[3] > 3 else s for s in c["src"]]
        c["D"] = 3
    c["chs"] = [[len(c["src"])], [len(c["uvw"])], [len(c["freq"])]]
    return c


def feed(rng, big):
    c = skycommon.feed(rng)
    if big:
        n = rng.choice([513, 1025, 600])
        c["shape"] = [n] if rng.random() < 0.5 else [3, n//3]
        n = n if len(c["shape"]) == 1 else 3*(n//3)
        c["ang"] = [list(rng.choice(skycommon.ANG)) for _ in range(n)]
        c["chs"] = [[x] for x in c["shape"]]
    c.update(lay="C", tol=2)
    return c


def beam(rng, big):
    c = skycommon.beam(rng)
    if big:
        ri = rng.randint
        k = rng.choice(["ant", "chan", "band", "time"])
        n = len(c["beam"][0][0][0])
        na = 17 if k == "ant" else 1 if k == "band" else ri(1, 2)
        nt = 5 if k == "time" else 1
        nc = {"chan": 33, "band": 1030}.get(k, 2)
        if k == "ant" and c["dt"] == "complex64":
            na = 34
        if k == "band":
            c["beam"] = [[[z[:1] for z in y] for y in x] for x in c["beam"]]
            n = 1
            c["shape"] = [1]
        f = list(c["freq"]) + [c["fmap"][0], c["fmap"][-1]]
        c.update(nsrc=1, ntime=nt, nant=na, nchan=nc, ncorr=n,
                 lm=[[ri(-3, 3), ri(-3, 3)]],
                 freq=[rng.choice(f) for _ in range(nc)],
                 ang=[[list(rng.choice(skycommon.ANG)) for _ in range(na)]
                      for _ in range(nt)],
                 pe=[[[[ri(-1, 1), ri(-1, 1)] for _ in range(nc)]
                      for _ in range(na)] for _ in range(nt)],
                 sc=[[[ri(1, 4), ri(1, 4)] for _ in range(nc)]
                     for _ in range(na)],
                 chs=[[1], [nt], [na], [nc]])
    c["lay"] = "C"
    return c


def degenerate(rng, w):
    c = beam(rng, False)
    c.update(must="ValueError")
    if w == 0:
        c["beam"], c["lw"] = c["beam"][:1], 1
    elif w == 1:
        c["beam"], c["mh"] = [r[:1] for r in c["beam"]], 1
    else:
        c["beam"] = [[x[:1] for x in r] for r in c["beam"]]
        c["fmap"] = c["fmap"][:1]
    return c


def predict(rng, combo, corr, dt, big):
    c = predcommon.make(rng, combo, corr, nsrc=1 if big else None)
    while big and not (c["nrow"] >= 3 and c["nchan"] == 1):
        c = predcommon.make(rng, combo, corr, nsrc=1)
    if big:
        widen(rng, c)
    c.update(lay="C", idt="int32", dts=[dt]*4)
    return c


def widen(rng, c):
    """More rows or channels than one block of threads holds."""
    nrow, nc = rng.choice([(35, 1), (40, 2), (5, 34), (5, 9), (2, 17)])
    corr = c["ncorr"]

    def v():
        return predcommon.gval(rng)
    pick = [rng.randrange(c["nrow"]) for _ in range(nrow)]
    for k in ("ti", "a1", "a2"):
        c[k] = [c[k][i] for i in pick]
    # every timestep occurs
    base = min(c["ti"])
    c["ti"] = [base + i % c["ntime"] for i in range(nrow)]
    if nrow < c["ntime"]:
        c["ti"] = [base]*nrow
    c.update(nrow=nrow, rch=[nrow], nchan=nc, cch=[nc])
    t, a, s = c["ntime"], c["nant"], c["nsrc"]

    def arr(*shape):
        if not shape:
            return v()
        return [arr(*shape[1:]) for _ in range(shape[0])]
    for k in ("E1", "E2"):
        if k in c:
            c[k] = arr(s, t, a, nc, corr)
    for k in ("G1", "G2"):
        if k in c:
            c[k] = arr(t, a, nc, corr)
    if "X" in c:
        c["X"] = arr(s, nrow, nc, corr)
    if "B" in c:
        c["B"] = arr(nrow, nc, corr)


def convert(rng, big):
    k = rng.random()
    if k < 0.35:
        ins, outs = list(STOKES), list(rng.choice([LIN, CIR]))
        if rng.random() < 0.3:
            outs = rng.sample(LIN + CIR, 4)
    elif k < 0.65:
        ins, outs = list(rng.choice([LIN, CIR])), list(STOKES)
    elif k < 0.9:
        ins, outs = map(list, rng.choice(PAIRS))
    else:
        ins = STOKES + rng.sample(["PP", "PQ", "QP", "QQ", "RX", "LY"], 4)
        outs = LIN + CIR
    ins, outs = list(ins), list(outs)
    rng.shuffle(ins)
    rng.shuffle(outs)
    c = c13.make(rng, ins, outs, dask=False)
    c["dt"] = rng.choice(["f4", "f8"] if outs[0] not in STOKES
                         else ["c8", "c16"])
    n = 1
    if big:
        c["free"] = rng.choice([[513], [9], [33], [3, 11], [4, 130]])
    for f in c["free"]:
        n *= f
    c["val"] = [[[rng.randint(-9, 9),
                  rng.randint(-9, 9) if c["dt"][0] == "c" else 0]
                 for _ in ins] for _ in range(n)]
    c["lay"] = "C"
    return c


def gen(rng, tier, emitted):
    cases = []
    quick = tier == "quick"
    k = 1 if quick else 6

    def add(kind, c, src):
        c["gpu"] = src
        c["order"] = rng.randint(1, 10**6)
        cases.append(dict(kind=kind, modes=["interp"], grp="",
                          **{"in": c}))
    for i in range(60*k):
        add("phase", phase(rng, i % 4 == 0), "sky")
    for i in range(30*k):
        add("phase-jax", phase(rng, False), "jax")
    for i in range(60*k):
        add("feed", feed(rng, i % 6 == 0), "sky")
    for i in range(100*k):
        add("beam", beam(rng, i % 3 == 0), "sky")
    for combo in predcommon.COMBOS:
        for corr in (1, 2, 4):
            for dt in ("complex64", "complex128"):
                if quick and rng.random() < 0.3:
                    continue
                for i in range(3*k):
                    add("predict", predict(rng, combo, corr, dt, i == 0),
                        "predict")
    for i in range(60*k):
        add("convert", convert(rng, i % 3 == 0), "convert")
    # shuffled, so that each process meets them after other calls
    rng.shuffle(cases)
    for i in range(24):
        add("beam-degenerate", degenerate(rng, i % 3), "sky")
    return cases


_ready = []


def _setup():
    import logging
    import os
    import fakecupy
    if not _ready:
        os.environ["VF_GPU_DIR"] = os.path.join(os.getcwd(), "gpu")
        fakecupy.install()
        logging.disable(logging.CRITICAL)
        import africanus.rime as rime
        import africanus.rime.cuda as cu
        import africanus.model.coherency as coh
        import africanus.model.coherency.cuda as cohcu
        for f in ("phase_delay", "feed_rotation", "predict_vis",
                  "beam_cube_dde"):
            setattr(rime, f, getattr(cu, f))
        coh.convert = cohcu.convert
        _ready.append(1)
        _ready.append(_jax())
    return fakecupy


def _jax():
    """The JAX form, with numpy in place of jax.numpy."""
    import sys
    import types
    import numpy
    jax, conf = types.ModuleType("jax"), types.ModuleType("jax.config")
    conf.update = lambda *a: None
    jax.numpy, jax.config = numpy, conf
    sys.modules.update({"jax": jax, "jax.numpy": numpy,
                        "jax.config": conf})
    from africanus.rime.jax.phase import phase_delay
    return phase_delay


def execute(case, mode):
    fc = _setup()
    c = case["in"]
    del fc.ERRORS[:], fc.LAUNCHES[:], fc._bufs[:]
    fc.SEED[0] = c["order"]
    import africanus.rime as rime
    import africanus.rime.cuda as cu
    jax = c["gpu"] == "jax"
    rime.phase_delay = _ready[1] if jax else cu.phase_delay
    f = {"sky": skycommon, "jax": skycommon, "predict": predcommon, "convert": c13}[c["gpu"]]
    try:
        o = f.execute(case, mode)
    finally:
        fc.check_guards()
    o["emu"] = sorted(set(fc.ERRORS))
    o["launches"] = 1 if jax else len(fc.LAUNCHES)
    return o
