"""C20: image regions, their masks, and faceting."""
from fractions import Fraction
TRACE = "RegionTrace"
MC = [dict(module="RegionMC", cfg="RegionMC.cfg", workers=4)]
MC_THOROUGH = [dict(module="RegionMC", cfg="RegionMC_thorough.cfg",
                    workers=6)]
NPROC = {"interp": 6}
S, FILL = 60, -999999


def side(a, b, p):
    return (b[0]-a[0])*(p[1]-a[1]) - (b[1]-a[1])*(p[0]-a[0])


def box(xl, xu, yl, yu, um=None):
    return dict(t="box", pts=[[xl, yl], [xl, yu], [xu, yu], [xu, yl]],
                hasm=um is not None, um=um or [])


def win(r):
    xs, ys = zip(*r["pts"])
    return min(xs), max(xs), min(ys), max(ys)


def rmask(rng, r, pad=1):
    """A user mask, partly outside the region."""
    xl, xu, yl, yu = win(r)
    px = [[y, x] for y in range(yl-pad, yu+pad+1)
          for x in range(xl-pad, xu+pad+1)]
    rng.shuffle(px)
    n = rng.choice([0, 1, 3, len(px)//2, len(px)//2, len(px)])
    return px[:n]


def rbox(rng, big=6, um=0.3, lo=-4, hi=5):
    xl, yl = rng.randint(lo, hi), rng.randint(lo, hi)
    r = box(xl, xl + rng.randint(1, big), yl, yl + rng.randint(1, big))
    if rng.random() < um:
        r.update(hasm=True, um=rmask(rng, r))
    return r


def rhull(rng, big=7, um=0.2, lo=-4, hi=5):
    while True:
        x0, y0 = rng.randint(lo, hi), rng.randint(lo, hi)
        p = [[x0 + rng.randint(0, big), y0 + rng.randint(0, big)]
             for _ in range(rng.choice([3, 3, 4, 4, 5, 6]))]
        q = [list(t) for t in sorted(set(map(tuple, p)))]
        if len(q) >= 3 and any(side(q[0], b, d) for b in q for d in q):
            break
    rng.shuffle(q)
    r = dict(t="hull", pts=q, hasm=False, um=[])
    if rng.random() < um:
        r.update(hasm=True, um=rmask(rng, r))
    return r


def rreg(rng, **kw):
    return rbox(rng, **kw) if rng.random() < 0.5 else rhull(rng, **kw)


def image(rng, planes, ny, nx, nan=0.0):
    return [[[FILL if rng.random() < nan else rng.randint(-9, 9)
              for _ in range(nx)] for _ in range(ny)] for _ in range(planes)]


def tie(P, Q, sep):
    """Whether some edge normal gives a gap of exactly sep."""
    for A in (P, Q):
        for a in A:
            for b in A:
                if a == b or any(side(a, b, q) < 0 for q in A):
                    continue
                n = (a[1]-b[1], b[0]-a[0])
                p, q = ([n[0]*x[0] + n[1]*x[1] for x in X] for X in (P, Q))
                g = max(min(q) - max(p), min(p) - max(q))
                if g >= 0 and g*g == sep*sep*(n[0]**2 + n[1]**2):
                    return True
    return False


def layout(rng, planes=None):
    """Shape of the cube around the image axes."""
    nd = rng.choice([2, 3, 4, 4])
    axes = sorted(rng.sample(range(nd), 2))
    if rng.random() < 0.5:
        axes = [nd-2, nd-1]
    other = [rng.randint(1, 2) for _ in range(nd-2)]
    if planes is None:
        planes = 1
        for k in other:
            planes *= k
    if rng.random() < 0.3:
        axes = axes[::-1]
    return axes, other, planes


def facets(rng):
    while True:
        regs = [rbox(rng, big=5, lo=-2, hi=4)
                for _ in range(rng.randint(1, 4))]
        nx, ny = rng.randint(3, 7), rng.randint(3, 7)
        if all(xl < nx and yl < ny and xu >= 0 and yu >= 0
               for xl, xu, yl, yu in map(win, regs)):
            return regs, nx, ny


def gen(rng, tier, emitted):
    cases = []
    q = 1 if tier == "quick" else 8

    def add(kind, **c):
        c.setdefault("must", "")
        c.setdefault("S", S)
        cases.append(dict(kind=kind, modes=["interp"], grp="",
                          **{"in": c}))
    regs = [box(-2, -1, 0, 1),
            dict(t="hull", hasm=False, um=[], pts=[[-1, 1], [1, 1], [0, 3]]),
            box(-1, 0, 1, 2)]
    hist = [x["ops"] for _, em in emitted for x in em]
    hist.sort(key=str)
    for h in hist if tier == "thorough" else rng.sample(hist, 500):
        ops = h + [dict(op="read", r=r) for r in (1, 2, 3)]
        add("history", fn="ops", regs=regs, ops=ops)
    for i in range(150*q):
        n = rng.randint(1, 4)
        rs = [rreg(rng, lo=-2, hi=2) for _ in range(n)]
        ops = []
        for _ in range(rng.randint(1, 8)):
            r = rng.randint(1, n)
            op = rng.choice(["norm", "norm", "read", "read", "set", "reset"])
            ops.append(dict(
                norm=dict(op=op, rs=sorted(rng.sample(
                    range(1, n+1), rng.randint(1, n))),
                    only=rng.random() < 0.5),
                set=dict(op=op, r=r, m=rmask(rng, rs[r-1])),
                reset=dict(op=op, r=r), read=dict(op=op, r=r))[op])
        ops += [dict(op="read", r=r) for r in range(1, n+1)]
        add("random-history", fn="ops", regs=rs, ops=ops)
    for i in range(250*q):
        add("hull", fn="hull", regs=[rreg(rng, big=9)])
    for i in range(400*q):
        while True:
            rs = [rreg(rng, um=0), rreg(rng, um=0)]
            sep = rng.choice([None, None, [0, 1], [1, 1], [2, 1], [3, 2]])
            if not tie(rs[0]["pts"], rs[1]["pts"],
                       Fraction(*(sep or [1, 2]))):
                break
        add("overlap", fn="overlap", regs=rs, sep=sep or [1, 2],
            defsep=sep is None)
    for i in range(250*q):
        axes, other, planes = layout(rng)
        nan = rng.random() < 0.5
        rs = [rreg(rng, big=7, lo=-3, hi=3)]
        if rng.random() < 0.4:
            rs.append(rreg(rng, um=0))
        add("extract", fn="extract", regs=rs, axes=axes, other=other,
            fill=FILL if nan else 0,
            data=image(rng, planes, rng.randint(2, 8), rng.randint(2, 8)),
            defax=sorted(axes) == [2, 3] and rng.random() < 0.5)
    for i in range(200*q):
        r = rbox(rng, big=11)
        n = rng.choice([1, 2, 2, 3, 4])
        xl, xu, yl, yu = win(r)
        d = [(xu-xl+n)//n, (yu-yl+n)//n]
        # a part one pixel wide has no convex hull
        if any((e-b+1) % k == 1 or k == 1
               for (b, e), k in zip(((xl, xu), (yl, yu)), d)):
            n = 1
        add("split", fn="split", regs=[r], n=n)
    for i in range(150*q):
        r = rbox(rng, big=9)
        xl, xu, yl, yu = win(r)
        add("pad", fn="pad", regs=[r],
            want=[xu-xl+1+rng.randint(0, 5), yu-yl+1+rng.randint(0, 5)])
    for i in range(200*q):
        add("bound", fn="bound", regs=[rreg(rng, big=9)],
            square=rng.random() < 0.5, odd=rng.random() < 0.5)
    for i in range(150*q):
        axes, other, planes = layout(rng)
        rs = [rbox(rng, big=5) for _ in range(rng.randint(1, 4))]
        parts = []
        for r in rs:
            xl, xu, yl, yu = win(r)
            parts.append(image(rng, planes, yu-yl+1, xu-xl+1, 0.1))
        dts = [rng.choice(["float64", "float64", "float32", "int32"])
               for _ in rs]
        dts = [d if d != "int32" or all(
                   x != FILL for f in p for y in f for x in y)
               else "float32" for d, p in zip(dts, parts)]
        add("project", fn="project", regs=rs, axes=axes, other=other,
            parts=parts, dts=dts,
            dt=rng.choice(["", "", "float32", "complex128"]))
    for i in range(200*q):
        axes, other, planes = layout(rng)
        rs, nx, ny = facets(rng)
        add("facet", fn="facet", regs=rs, axes=axes, other=other,
            data=image(rng, planes, ny, nx))
    r = box(0, 3, 0, 3)
    bad = [("pad-small", "ValueError"), ("split-zero", "ValueError"),
           ("split-type", "TypeError"), ("pad-type", "TypeError"),
           ("bound-type", "TypeError"), ("overlap-type", "TypeError"),
           ("extract-type", "TypeError"), ("extract-axes", "ValueError"),
           ("norm-type", "TypeError"), ("box-float", "ValueError"),
           ("mask-type", "TypeError"), ("mask-pairs", "TypeError"),
           ("project-length", "TypeError"), ("project-shape", "ValueError"),
           ("project-type", "TypeError"), ("project-ndim", "ValueError")]
    for fn, err in bad:
        add("invalid", fn=fn, regs=[r], must=err)
    return cases


def execute(case, mode):
    import numpy as np
    from enc import keep
    from africanus.linalg.geometry import (
        BoundingConvexHull as BCH, BoundingBox as BB,
        BoundingBoxFactory as F)
    c = case["in"]

    def make(r):
        m = [tuple(p) for p in r["um"]] if r["hasm"] else None
        if r["t"] == "box":
            xl, xu, yl, yu = win(r)
            return BB(xl, xu, yl, yu, mask=m)
        return BCH(r["pts"], mask=m)

    def ints(v, s=1):
        keep(v)
        v = np.asarray(v, dtype=np.float64)*s
        w = np.where(np.isnan(v), FILL, v)
        k = np.rint(w)
        if np.any(np.abs(w - k) > 1e-6):
            k = np.where(np.abs(w - k) > 1e-6, 7777777, k)
        return k.astype(np.int64).tolist()

    def px(m):
        return [[int(y), int(x)] for y, x in m]

    def extent(b):
        x, y = b.corners[:, 0], b.corners[:, 1]
        return [int(v) for v in (x.min(), x.max(), y.min(), y.max())]

    def cube(planes, axes, other):
        a = np.array(planes, dtype=np.float64)
        a[a == FILL] = np.nan
        a = a.reshape(tuple(other) + a.shape[1:])
        nd = a.ndim
        return np.ascontiguousarray(
            np.moveaxis(a, [nd-2, nd-1], sorted(axes)))

    def planes(a, axes, s=1):
        nd = a.ndim
        a = np.moveaxis(a, sorted(axes), [nd-2, nd-1])
        return ints(a.reshape((-1,) + a.shape[-2:]), s)
    fn, o = c["fn"], {}
    regs = [make(r) for r in c["regs"]]
    r = regs[0]
    if fn == "hull":
        o["sparse"] = px(r.sparse_mask)
        o["filled"] = ints(r.mask, S)
        o["corners"] = ints(r.corners)
        o["edges"] = ints(r.edges)
        o["mids"] = ints(r.edge_midpoints, 2)
        o["normals"] = [ints(r.lnormals), ints(r.rnormals)]
        o["nested"] = px(BCH([r, c["regs"][0]["pts"][0]]).sparse_mask)
        o["centre"] = [int(x) for x in r.centre]
        xl, xu, yl, yu = win(c["regs"][0])
        o["probe"] = [[x, y, bool((x, y) in r)]
                      for x in range(xl-1, xu+2) for y in range(yl-1, yu+2)]
        if c["regs"][0]["t"] == "box":
            o["npx"] = [int(x) for x in r.box_npx]
            o["area"] = ints(r.area)
    elif fn == "overlap":
        kw = {} if c["defsep"] else dict(
            min_sep_dist=c["sep"][0]/c["sep"][1])
        o["v"] = bool(r.overlaps_with(regs[1], **kw))
        o["w"] = bool(regs[1].overlaps_with(r, **kw))
    elif fn == "ops":
        o["reads"] = []
        for op in c["ops"]:
            if op["op"] == "norm":
                BCH.normalize_masks([regs[i-1] for i in op["rs"]],
                                    only_overlapped_regions=op["only"])
                continue
            r = regs[op["r"]-1]
            if op["op"] == "set":
                r.sparse_mask = [tuple(p) for p in op["m"]]
            elif op["op"] == "reset":
                r.invalidate_cached_masks()
            else:
                o["reads"].append(dict(
                    filled=ints(r.mask, S), sparse=px(r.sparse_mask),
                    w=ints(r.sprase_mask_weights, S)))
    elif fn == "extract":
        d = cube(c["data"], c["axes"], c["other"])
        d0 = d.copy()
        if len(regs) > 1:
            BCH.normalize_masks(regs)
        kw = {} if c["defax"] else dict(axes=tuple(c["axes"]))
        if c["fill"]:
            kw["oob_value"] = np.nan
        m0 = r.mask.copy()
        v, ext = BCH.regional_data(r, d, **kw)
        o["v"] = planes(v*S, c["axes"])
        o["ext"] = [int(x) for x in ext]
        o["inputs_ok"] = bool(np.array_equal(d, d0)
                              and np.array_equal(m0, r.mask)
                              and not np.shares_memory(v, d))
    elif fn == "facet":
        d = cube(c["data"], c["axes"], c["other"])
        BCH.normalize_masks(regs)
        ax = tuple(c["axes"])
        parts = [BCH.regional_data(x, d, axes=ax)[0] for x in regs]
        v, b = BB.project_regions(parts, regs, axes=ax)
        o["v"] = planes(v*S, ax)
        o["ext"], o["mask"] = extent(b), px(b.sparse_mask)
    elif fn == "split":
        bs = F.SplitBox(r, c["n"])
        o["boxes"] = [extent(b) for b in bs]
        o["masks"] = [px(b.sparse_mask) for b in bs]
    elif fn == "pad":
        b = F.PadBox(r, *c["want"])
        o["box"], o["mask"] = extent(b), px(b.sparse_mask)
        o["npx"] = [int(x) for x in b.box_npx]
    elif fn == "bound":
        b = F.AxisAlignedBoundingBox(r, square=c["square"],
                                     enforce_odd=c["odd"])
        o["box"], o["mask"] = extent(b), px(b.sparse_mask)
    elif fn == "project":
        ax = tuple(c["axes"])
        parts = [cube(p, ax, c["other"]).astype(d)
                 for p, d in zip(c["parts"], c["dts"])]
        before = [p.copy() for p in parts]
        kw = dict(dtype=np.dtype(c["dt"]).type) if c["dt"] else {}
        v, b = BB.project_regions(parts, regs, axes=ax, **kw)
        o["dtype_ok"] = bool(v.dtype == np.dtype(c["dt"] or "float64"))
        o["v"] = planes(v.real, ax)
        o["ext"], o["mask"] = extent(b), px(b.sparse_mask)
        o["inputs_ok"] = all(np.array_equal(x, y, equal_nan=True)
                             for x, y in zip(parts, before))
    else:
        d = np.ones((1, 1, 4, 4))
        hull = BCH([(0, 0), (3, 0), (0, 3)])
        {"pad-small": lambda: F.PadBox(r, 3, 9),
         "split-zero": lambda: F.SplitBox(r, 0),
         "split-type": lambda: F.SplitBox(hull, 2),
         "pad-type": lambda: F.PadBox(hull, 9, 9),
         "bound-type": lambda: F.AxisAlignedBoundingBox([[0, 0], [1, 1]]),
         "overlap-type": lambda: r.overlaps_with([0, 3, 0, 3]),
         "extract-type": lambda: BCH.regional_data([0, 3, 0, 3], d),
         "extract-axes": lambda: BCH.regional_data(r, d, axes=(1, 2, 3)),
         "norm-type": lambda: BCH.normalize_masks([r, 3]),
         "box-float": lambda: BB(0.5, 3, 0, 3),
         "mask-type": lambda: BB(0, 3, 0, 3, mask="ab"),
         "mask-pairs": lambda: BB(0, 3, 0, 3, mask=[(1, 2, 3)]),
         "project-length": lambda: BB.project_regions([d], [r, r]),
         "project-shape": lambda: BB.project_regions(
             [d[..., :3]], [r]),
         "project-type": lambda: BB.project_regions([d], [hull]),
         "project-ndim": lambda: BB.project_regions([d, d[0]], [r, r]),
         }[fn]()
    return o
