"""C27: cubic splines."""
import json
TRACE = "SplineTrace"
MC = [dict(module="SplineMC", cfg="SplineMC.cfg", workers=2)]
MC_THOROUGH = [dict(module="SplineMC", cfg="SplineMC_thorough.cfg",
                    workers=6)]
NPROC = {"interp": 4, "jit": 2}
U, LIM = 1000, 400000


def gen(rng, tier, emitted):
    cases = []
    q = 1 if tier == "quick" else 8

    def add(name, modes=("interp",), **c):
        x = c["x"]
        lo, hi = 2*x[0], 2*x[-1]
        c.setdefault("t", [rng.randint(lo - 6, hi + 6) if rng.random() < 0.3
                           else rng.randint(lo, hi)
                           for _ in range(rng.randint(1, 10))])
        if rng.random() < 0.4:
            c["t"].sort(reverse=rng.random() < 0.3)
        c["order"] = rng.choice([-1, 3, 4])
        cases.append(dict(kind=name, modes=list(modes), grp="",
                          **{"in": c}))
    ls = sorted({json.dumps(x, sort_keys=True)
                 for _, em in emitted for x in em})
    for s in rng.sample(ls, min(len(ls), 500*q)):
        add("model", **json.loads(s))
    for i in range(500*q):
        n = rng.choice([2, 3, 4, 5, 6, 8, 12] if i % 20 else [40, 150])
        x = [rng.randint(-20, 20)]
        for _ in range(n - 1):
            x.append(x[-1] + rng.randint(1, 4))
        y = [rng.randint(-6, 6) for _ in x]
        if rng.random() < 0.1:
            y = [y[0]]*n
        add("random", ("interp", "jit") if i % 4 == 0 else ("interp",),
            x=x, y=y, lt=rng.choice([1, 2]), rt=rng.choice([1, 2]),
            lv=rng.choice([0, 0, 1, -3, 5]), rv=rng.choice([0, 0, 2, -2, 4]))
    return cases


def fix(a):
    from enc import keep
    keep(a)
    out = []
    for v in a:
        v = float(v)
        out.append(LIM if not abs(v) < LIM/U else round(v*U))
    return out


def execute(case, mode):
    c = case["in"]
    import numpy as np
    from enc import keep
    from africanus.averaging.splines import fit_cubic_spline, evaluate_spline
    x = np.array(c["x"], dtype=np.float64)
    y = np.array(c["y"], dtype=np.float64)
    t = np.array(c["t"], dtype=np.float64)/2
    x0, y0, t0 = x.copy(), y.copy(), t.copy()
    if (c["lt"], c["rt"], c["lv"], c["rv"]) == (2, 2, 0, 0):
        s = fit_cubic_spline(x, y)
    else:
        s = fit_cubic_spline(x, y, c["lt"], c["rt"], float(c["lv"]),
                             float(c["rv"]))
    keep(*s)
    o = dict(y=fix(evaluate_spline(s, x)),
             d=fix(evaluate_spline(s, x, order=1)),
             m=fix(evaluate_spline(s, x, order=2)))
    o["v"] = [list(v) for v in zip(*(fix(evaluate_spline(s, t, order=k))
                                     for k in (0, 1, 2)))]
    o["same"] = bool((x == x0).all() and (y == y0).all() and (t == t0).all())

    def raises(f):
        try:
            f()
        except ValueError:
            return True
        return False
    o["err"] = bool(
        raises(lambda: evaluate_spline(s, t, order=c["order"])) and
        raises(lambda: fit_cubic_spline(x, y, c["order"], 2)) and
        raises(lambda: fit_cubic_spline(x, y, 2, c["order"])))
    return o
