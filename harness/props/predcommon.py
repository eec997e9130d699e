"""predict_vis cases: generation (stdlib) and execution."""
TRACE = "RimeTrace"
MC = [dict(module="RimeMC", cfg="RimeMC.cfg", workers=4)]
MC_THOROUGH = [dict(module="RimeMC", cfg="RimeMC_thorough.cfg", workers=8)]

COMBOS = [(e, x, b, g) for e in (0, 1) for x in (0, 1) for b in (0, 1)
          for g in (0, 1) if e or x or b]


def split(rng, n, k):
    k = max(1, min(k, n))
    cuts = sorted(rng.sample(range(1, n), k - 1)) if k > 1 else []
    return [b - a for a, b in zip([0] + cuts, cuts + [n])]


def gval(rng, big=False):
    if big:
        return [rng.randint(-2**20, 2**20), rng.randint(-2**20, 2**20)]
    return [rng.randint(-2, 2), rng.randint(-2, 2)]


def unit(rng):
    return rng.choice([[1, 0], [0, 1], [-1, 0], [0, -1], [0, 0], [1, 0]])


def make(rng, combo, corr, nsrc=None, tcounts=None, dask=False, big=False,
         same=False, sch=None, rch_rows=None):
    """tcounts: number of timesteps per row chunk."""
    full = corr == 4
    nant = rng.randint(1, 4)
    nchan = rng.choice([1, 1, 2, 3])
    nsrc = sum(sch) if sch else (nsrc or rng.choice([1, 1, 2, 3, 5]))
    nrc = len(rch_rows) if rch_rows else (rng.randint(1, 3) if dask else 1)
    tch = [rng.randint(1, 3) for _ in range(nrc)]
    rows, rch = [], []
    base = rng.choice([0, 0, 3])
    glob = rng.random() < 0.5
    off = 0
    for k, nt in enumerate(tch):
        n = 0
        chunk = []
        start = base + (off if glob else 0)
        for t in range(nt):
            m = rng.randint(1, 3) if t else rng.randint(1, 3)
            for _ in range(m):
                chunk.append((start + t, rng.randrange(nant),
                              rng.randrange(nant)))
                n += 1
        if rng.random() < 0.2:
            rng.shuffle(chunk)
        rows += chunk
        rch.append(n)
        off += nt
    ntime = sum(tch)
    e, x, b, g = combo
    u = (lambda: unit(rng)) if big else (lambda: gval(rng))

    def arr(shape, f):
        if not shape:
            return f()
        return [arr(shape[1:], f) for _ in range(shape[0])]

    nrow = len(rows)
    c = dict(nrow=nrow, nchan=nchan, nsrc=nsrc, nant=nant, ntime=ntime,
             ncorr=corr, full=full, ti=[r[0] for r in rows],
             a1=[r[1] for r in rows], a2=[r[2] for r in rows], rch=rch,
             tch=tch, hasE=bool(e), hasX=bool(x), hasB=bool(b),
             hasG=bool(g), must="")
    if e:
        c["E1"] = arr((nsrc, ntime, nant, nchan, corr), u)
        c["E2"] = c["E1"] if same else arr((nsrc, ntime, nant, nchan, corr),
                                           u)
    if x:
        c["X"] = arr((nsrc, nrow, nchan, corr), lambda: gval(rng, big))
    if b:
        c["B"] = arr((nrow, nchan, corr), lambda: gval(rng, big))
    if g:
        c["G1"] = arr((ntime, nant, nchan, corr), u)
        c["G2"] = c["G1"] if same else arr((ntime, nant, nchan, corr), u)
    c["same"] = same
    c["dts"] = ["complex128"]*4 if big else \
        [rng.choice(["complex64", "complex128"]) for _ in range(4)] \
        if rng.random() < 0.3 else [rng.choice(["complex64",
                                                "complex128"])]*4
    c["lay"] = rng.choice(["C", "C", "strided"])
    c["idt"] = rng.choice(["int32", "int64"])
    c["dask"] = dask
    c["sch"] = sch or (split(rng, nsrc, rng.randint(1, 4)) if dask
                       else [nsrc])
    c["cch"] = split(rng, nchan, rng.randint(1, 2)) if dask else [nchan]
    c["streams"] = rng.choice(["none", "true", "false"])
    c["seed"] = rng.randint(0, 10**6)
    c["twice"] = rng.random() < 0.3
    c["func"] = "predict"
    return c


def execute(case, mode):
    import numpy as np
    from enc import keep, layout, snapshot, same
    c = case["in"]
    corr = (2, 2) if c["full"] else (c["ncorr"],)
    idt = np.dtype(c["idt"])
    ti = np.array(c["ti"], idt)
    a1 = np.array(c["a1"], idt)
    a2 = np.array(c["a2"], idt)

    def cplx(x, dt):
        v = np.array(x, dtype=np.float64)
        v = (v[..., 0] + 1j*v[..., 1]).astype(dt)
        return layout(v.reshape(v.shape[:-1] + corr), c["lay"])

    dE, dX, dB, dG = c["dts"]
    E1 = cplx(c["E1"], dE) if c["hasE"] else None
    E2 = (E1 if c["same"] else cplx(c["E2"], dE)) if c["hasE"] else None
    X = cplx(c["X"], dX) if c["hasX"] else None
    B = cplx(c["B"], dB) if c["hasB"] else None
    G1 = cplx(c["G1"], dG) if c["hasG"] else None
    G2 = (G1 if c["same"] else cplx(c["G2"], dG)) if c["hasG"] else None
    ins = [ti, a1, a2, E1, X, E2, G1, B, G2]
    snap = snapshot(ins)
    meta_ok = True
    if c["dask"]:
        import dask.array as da
        import sched
        from africanus.rime.dask import predict_vis
        rch, tch, sch, cch = (tuple(c[k]) for k in
                              ("rch", "tch", "sch", "cch"))
        cc = tuple((n,) for n in corr)
        ant = (c["nant"],)

        def d(x, ch):
            return None if x is None else da.from_array(x, chunks=ch,
                                                        name=False)
        dE1 = d(E1, (sch, tch, ant, cch) + cc)
        dG1 = d(G1, (tch, ant, cch) + cc)
        args = dict(
            dde1_jones=dE1,
            dde2_jones=dE1 if c["same"] else d(E2, (sch, tch, ant, cch)+cc),
            source_coh=d(X, (sch, rch, cch) + cc),
            die1_jones=dG1,
            die2_jones=dG1 if c["same"] else d(G2, (tch, ant, cch) + cc),
            base_vis=d(B, (rch, cch) + cc))
        bad = c.get("bad", "")
        if bad == "no-dde2":
            args["dde2_jones"] = None
        elif bad == "no-die2":
            args["die2_jones"] = None
        elif bad == "ant-split":
            for k in ("dde1_jones", "dde2_jones", "die1_jones",
                      "die2_jones"):
                if args[k] is not None:
                    ax = 2 if k[1] == "d" else 1
                    args[k] = args[k].rechunk({ax: 1})
        elif bad == "time-merge":
            for k in ("dde1_jones", "dde2_jones", "die1_jones",
                      "die2_jones"):
                if args[k] is not None:
                    ax = 1 if k[1] == "d" else 0
                    args[k] = args[k].rechunk({ax: sum(tch)})
        z = predict_vis(d(ti, (rch,)), d(a1, (rch,)), d(a2, (rch,)), **args,
                        streams={"none": None, "true": True,
                                 "false": False}[c["streams"]])
        vis, = sched.compute([z], c["seed"], twice=c["twice"],
                             optimize=c["seed"] % 2 == 0)
        meta_ok = bool(z.dtype == vis.dtype and z.shape == vis.shape and
                       z.chunks == (rch, cch) + cc)
    elif c["func"] == "apply_gains":
        from africanus.rime import apply_gains
        vis = apply_gains(ti, a1, a2, G1, B, G2)
    else:
        from africanus.rime import predict_vis
        kw = dict(dde1_jones=E1, source_coh=X, dde2_jones=E2, die1_jones=G1,
                  base_vis=B, die2_jones=G2)
        if c["seed"] % 2:
            vis = predict_vis(ti, a1, a2, E1, X, E2, G1, B, G2)
        else:
            vis = predict_vis(ti, a1, a2, **{k: v for k, v in kw.items()
                                             if v is not None})
    exp = np.result_type(*(a.dtype for a in ins[3:] if a is not None))
    o = dict(dtype_ok=bool(vis.dtype == exp), inputs_ok=same(snap, ins),
             meta_ok=meta_ok)
    keep(vis)
    ok = vis.shape[2:] == corr
    v = vis.reshape(vis.shape[:2] + (-1,)) if ok else vis[..., None]
    re, im = np.rint(v.real), np.rint(v.imag)
    o["integral"] = bool(np.all(np.abs(v.real - re) < 1e-3) and
                         np.all(np.abs(v.imag - im) < 1e-3))
    o["vis"] = [[[[int(np.clip(np.nan_to_num(r), -2e9, 2e9)),
                   int(np.clip(np.nan_to_num(i), -2e9, 2e9))]
                  for r, i in zip(fr, fi)] for fr, fi in zip(rr, ri)]
                for rr, ri in zip(re, im)]
    return o
