"""C13: conversion between Stokes parameters and correlations."""
from tile import spread
NPROC = {"interp": 8}
MC = [dict(module="CohMC", cfg="CohMC.cfg", workers=2),
      dict(module="CohMC", cfg="CohMC_emit.cfg", workers=1)]
MC_THOROUGH = [dict(module="CohMC", cfg="CohMC_thorough.cfg", workers=8),
               dict(module="CohMC", cfg="CohMC_emit.cfg", workers=1)]
TRACE = "CohTrace"
TYPES = ["Undefined", "I", "Q", "U", "V", "RR", "RL", "LR", "LL", "XX", "XY",
         "YX", "YY", "RX", "RY", "LX", "LY", "XR", "XL", "YR", "YL", "PP",
         "PQ", "QP", "QQ", "RCircular", "LCircular", "Linear", "Ptotal",
         "Plinear", "PFtotal", "PFlinear", "Pangle"]
ST, LI, CI = TYPES[1:5], TYPES[9:13], TYPES[5:9]
KNOWN = ST + LI + CI
PAIRS = dict(RR="IV", LL="IV", RL="QU", LR="QU", XX="IQ", YY="IQ", XY="UV",
             YX="UV")
PAIRS = {k: [tuple(v)] for k, v in PAIRS.items()}
PAIRS.update(I=[("XX", "YY"), ("RR", "LL")], Q=[("XX", "YY"), ("RL", "LR")],
             U=[("XY", "YX"), ("RL", "LR")], V=[("XY", "YX"), ("RR", "LL")])


def factor(rng, n):
    """A random shape with n elements."""
    sh, m = [], n
    while m > 1:
        f = rng.choice([k for k in range(2, m+1) if m % k == 0])
        sh.append(f)
        m //= f
    for _ in range(rng.choice([0, 0, 0, 1])):
        sh.insert(rng.randint(0, len(sh)), 1)
    return sh or [1]


def split(rng, n, k):
    if n == 0:
        return [0]
    cuts = sorted(rng.sample(range(1, n), min(k, n) - 1)) if n > 1 else []
    return [b-a for a, b in zip([0]+cuts, cuts+[n])]


def make(rng, ins=None, outs=None, defect="", dask=None):
    if ins is None:
        r = rng.random()
        if r < 0.5:
            ins = list(rng.choice([ST, LI, CI]))
        elif r < 0.8:
            ins = list(rng.choice([LI + CI, KNOWN, ST + LI, ST + CI,
                                   ["I", "Q"], ["XX", "YY"], ["RR", "LL"],
                                   ["I", "V"], ["XX", "YY", "RL", "LR"]]))
        else:
            ins = rng.sample(KNOWN, rng.randint(2, 8))
        if rng.random() < 0.2:
            ins += rng.sample(TYPES[13:] + ["Undefined", "banana"],
                              rng.randint(1, 2))
        rng.shuffle(ins)
        can = [k for k in KNOWN if any(a in ins and b in ins
                                       for a, b in PAIRS[k])]
        cant = [k for k in KNOWN if k not in can]
        outs = rng.sample(can, rng.randint(1, len(can))) if can else []
        if not outs or (rng.random() < 0.05 and cant):
            outs.insert(rng.randint(0, len(outs)), rng.choice(cant))
        if rng.random() < 0.03:
            outs.insert(rng.randint(0, len(outs)),
                        rng.choice(TYPES[13:] + ["Undefined", "banana"]))
        if rng.random() < 0.03:
            w = rng.choice([ins, outs])
            w.insert(rng.randint(0, len(w)), rng.choice(w))
    free = [rng.randint(1, 3) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    if dask is None:
        dask = rng.random() < 0.5
    if dask and not free:
        free = [2]
    n = 1
    for f in free:
        n *= f
    dt = rng.choice(["f4", "f8", "c8", "c16"])
    c = dict(inames=ins, onames=outs, ish=factor(rng, len(ins)),
             osh=factor(rng, len(outs)), free=free, dt=dt, S=4,
             defect=defect, dask=dask, lay=rng.choice(["C", "C", "F",
                                                       "strided"]))
    c["val"] = [[[rng.randint(-9, 9),
                  rng.randint(-9, 9) if dt[0] == "c" else 0]
                 for _ in ins] for _ in range(n)]
    # string, int or numpy int for each element; list or tuple per level
    c["irep"] = [rng.choice("ssip") for _ in ins]
    c["orep"] = [rng.choice("ssip") for _ in outs]
    c["tup"] = rng.random() < 0.3
    c["bare"] = [int(len(x) == 1 and s == [1] and rng.random() < 0.5)
                 for x, s in ((ins, c["ish"]), (outs, c["osh"]))]
    c["which"] = rng.randint(0, 1)
    c["where"] = rng.randint(0, 100)
    c["seed"] = rng.randint(0, 10**6)
    c["twice"] = rng.random() < 0.3
    if dask:
        c["ch"] = [split(rng, f, rng.randint(1, 2)) for f in free] + \
            [split(rng, f, rng.choice([1, 1, 2, 3])) for f in c["ish"]]
    return c


def gen(rng, tier, emitted):
    cases = []
    quick = tier == "quick"

    def add(kind, c):
        cases.append(dict(kind=kind, modes=["interp"], grp="",
                          **{"in": c}))
    lines = [x for _, em in emitted for x in em]
    rng.shuffle(lines)
    yes = [x for x in lines if any(a in x["ins"] and b in x["ins"]
                                   for a, b in PAIRS[x["out"]])]
    no = [x for x in lines if not any(a in x["ins"] and b in x["ins"]
                                      for a, b in PAIRS[x["out"]])]
    for x in yes[:1500 if quick else 5000] + no[:300 if quick else 5000]:
        ins = list(x["ins"])
        # asking for what was given is not a conversion
        if x["out"] in ins and not any(a in ins and b in ins
                                       for a, b in PAIRS[x["out"]]):
            continue
        rng.shuffle(ins)
        add("from-spec", make(rng, ins, [x["out"]]))
    for i in range(1500 if quick else 15000):
        c = make(rng)
        if any(k in c["inames"] and not any(a in c["inames"] and
               b in c["inames"] for a, b in PAIRS.get(k, []))
               for k in c["onames"] if k in KNOWN):
            continue
        add("random", c)
    for d in ("shape", "badid", "ragged", "badtype"):
        for i in range(20 if quick else 100):
            src = list(rng.choice([LI, CI]))
            dst = list(ST)
            if rng.random() < 0.5:
                src, dst = dst, src
            rng.shuffle(src)
            rng.shuffle(dst)
            add("defect-" + d, make(rng, src, dst, d))
    flat = [dict(x, **{"in": dict(x["in"], free=[len(x["in"]["val"])],
                                  dask=False)})
            for x in cases if x["in"]["defect"] == ""][:300]
    n = len(flat)
    cases += spread(rng, flat, 30 if tier == "quick" else 200, {None: [
        dict(axes=[["val", 0]], out=[["val", 0]], count=["free"])]})[n:]
    return cases


def nest(flat, shape, tup):
    if len(shape) == 1:
        r = list(flat)
    else:
        k = len(flat)//shape[0]
        r = [nest(flat[i*k:(i+1)*k], shape[1:], tup)
             for i in range(shape[0])]
    return tuple(r) if tup else r


def execute(case, mode):
    import numpy as np
    from enc import fx, keep, snapshot, same, layout
    c = case["in"]
    ish, osh = list(c["ish"]), list(c["osh"])
    dt = np.dtype(c["dt"])

    def rep(names, reps):
        return [n if r == "s" or n not in TYPES else
                TYPES.index(n) if r == "i" else
                [np.int32, np.int64, np.uint8][len(n) % 3](TYPES.index(n))
                for n, r in zip(names, reps)]
    sch = [rep(c["inames"], c["irep"]), rep(c["onames"], c["orep"])]
    if c["defect"] in ("badid", "badtype"):
        w = sch[c["which"]]
        w[c["where"] % len(w)] = 99 + c["where"] if c["defect"] == "badid" \
            else [None, 1.5, {"I": 1}, b"I", 2j][c["where"] % 5]
    shapes = [ish, osh]
    if c["defect"] == "ragged":
        ish[:], osh[:] = [2, 2], [2, 2]
    sch = [s[0] if b and c["defect"] == "" else nest(s, h, c["tup"])
           for s, h, b in zip(sch, shapes, c["bare"])]
    if c["defect"] == "ragged":
        w = sch[c["which"]]
        r = list(w)
        k = c["where"] % 2
        r[k] = list(r[k])[:1] if c["where"] % 3 else list(r[k]) + ["PP"]
        sch[c["which"]] = r
    v = np.array(c["val"], float)
    a = v[..., 0] if dt.kind == "f" else v[..., 0] + 1j*v[..., 1]
    a = a.astype(dt).reshape(c["free"] + ish)
    if c["defect"] == "shape":
        a = a.reshape(c["free"] + [len(c["inames"])])
        a = np.concatenate([a, a[..., :1]], -1) if c["where"] % 2 \
            else a[..., :-1]
        sch[0] = nest(rep(c["inames"], c["irep"]), [len(c["inames"])],
                      c["tup"])
    a = layout(a, c["lay"])
    snap = snapshot([a])
    o = dict(meta_ok=True)
    if c["dask"]:
        import dask.array as da
        import sched
        from africanus.model.coherency.dask import convert
        ch = tuple(tuple(x) for x in c["ch"]) if c["defect"] == "" else -1
        x = da.from_array(a, chunks=ch, name=False)
        z = convert(x, sch[0], sch[1])
        r, = sched.compute([z], c["seed"], twice=c["twice"],
                           optimize=c["seed"] % 2 == 0)
        o["meta_ok"] = bool(z.dtype == r.dtype and z.shape == r.shape and
                            z.chunks[:len(c["free"])] ==
                            x.chunks[:len(c["free"])])
    else:
        from africanus.model.coherency import convert
        r = convert(a, sch[0], sch[1])
    o["shape_ok"] = bool(isinstance(r, np.ndarray) and
                         r.shape == tuple(c["free"] + osh))
    o["cplx"] = bool(r.dtype.kind == "c")
    keep(r)
    o["inputs_ok"] = same(snap, [a])
    o["val"] = fx(r.reshape(-1, len(c["onames"])).astype(complex), c["S"]) \
        if o["shape_ok"] else []
    return o
