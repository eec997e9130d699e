"""C22: chunk aggregation, correlation shapes, complex types."""
TRACE = "ChunksTrace"
MC = [dict(module="ChunksMC", cfg="ChunksMC.cfg", workers=2),
      dict(module="ChunksMC", cfg="ChunksMC2.cfg", workers=2)]
NPROC = {"interp": 2}
TYPES = ["complex128", "complex64", "float64", "float32", "float16", "int8",
         "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64",
         "bool"]


def gen(rng, tier, emitted):
    cases = []
    q = 1 if tier == "quick" else 10

    def add(name, **c):
        c.setdefault("must", "")
        cases.append(dict(kind=name, modes=["interp"], grp="",
                          **{"in": c}))
    for _, em in emitted:
        em = sorted(em, key=str)
        for x in em if tier == "thorough" or len(em) < 1000 else \
                rng.sample(em, 1000):
            add("emitted", fn="agg", dims=x["dims"], max=x["max"],
                lists=rng.random() < 0.3)
    for i in range(600*q):
        n, nd = rng.randint(1, 12), rng.choice([1, 1, 2, 2, 3])
        top = rng.choice([3, 10, 100])
        add("random", fn="agg", lists=rng.random() < 0.3,
            dims=[[rng.randint(1, top) for _ in range(n)]
                  for _ in range(nd)],
            max=[rng.randint(1, 3*top) for _ in range(nd)])
    for n in range(0, 7):
        add("corr", fn="corr", n=n, kind="flat")
        add("corr", fn="corr", n=n, kind="matrix",
            must="" if n in (1, 2, 4) else "ValueError")
    add("corr", fn="corr", n=4, kind="square", must="ValueError")
    for a in TYPES:
        for b in TYPES:
            add("types", fn="dtype", ts=[a, b],
                how=[rng.choice(["numpy", "dask", "numba"])
                     for _ in range(2)])
    for i in range(100):
        k = rng.randint(1, 4)
        add("types", fn="dtype", ts=[rng.choice(TYPES) for _ in range(k)],
            how=[rng.choice(["numpy", "dask", "numba"]) for _ in range(k)])
    add("types", fn="dtype", ts=["float64"], how=["list"], must="ValueError")
    for dims, mx in [([[1, 2], [1]], [3, 3]), ([[1, 2], [1, 1]], [3]),
                     ([[1, 2]], [3, 4])]:
        add("mismatch", fn="agg", dims=dims, max=mx, lists=False,
            must="ValueError")
    return cases


def execute(case, mode):
    import numpy as np
    c = case["in"]
    if c["fn"] == "agg":
        from africanus.util.shapes import aggregate_chunks
        t = list if c["lists"] else tuple
        if len(c["max"]) == 1 and len(c["dims"]) == 1:
            v = aggregate_chunks(t(c["dims"][0]), c["max"][0])
            form = isinstance(v, tuple)
            v = (v,)
        else:
            v = aggregate_chunks(t(map(tuple, c["dims"])), t(c["max"]))
            form = isinstance(v, tuple)
        form = form and all(isinstance(x, tuple) for x in v)
        return dict(v=[[int(y) for y in x] for x in v], form=form)
    if c["fn"] == "corr":
        from africanus.util.shapes import corr_shape
        return dict(v=[int(x) for x in corr_shape(c["n"], c["kind"])])
    from africanus.util.type_inference import infer_complex_dtype

    def arr(t, how):
        if how == "list":
            return [1.0, 2.0]
        a = np.zeros((2, 3), dtype=t)
        if how == "dask":
            import dask.array as da
            return da.from_array(a, chunks=2)
        if how == "numba":
            import numba
            return numba.typeof(a)
        return a
    # compiled functions cannot hold half precision
    ts = [("numpy" if t == "float16" and h == "numba" else h)
          for t, h in zip(c["ts"], c["how"])]
    return dict(v=np.dtype(infer_complex_dtype(
        *[arr(t, h) for t, h in zip(c["ts"], ts)])).name)
