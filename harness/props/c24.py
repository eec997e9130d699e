"""C24: memoised functions, singletons and optional requirements."""
import itertools
HISTORY = False
TRACE = "MemoTrace"
MC = [dict(module="MemoMC", cfg="MemoMC.cfg", workers=2)]
MC_THOROUGH = [dict(module="MemoMC", cfg="MemoMC_thorough.cfg", workers=6)]
NPROC = {"interp": 6}
REQ = ["have", "miss", "none", "error", "force", "bad"]


def gen(rng, tier, emitted):
    cases = []
    q = 1 if tier == "quick" else 6

    def add(name, **c):
        cases.append(dict(kind=name, modes=["interp"], grp="",
                          **{"in": c}))

    def sched():
        return dict(seed=rng.randint(0, 10**6),
                    run=rng.choice([1, 1, 2, 4, 8]))
    progs = sorted({str(x): x for _, em in emitted for x in em}.items())
    for _, x in progs if tier == "thorough" else \
            rng.sample(progs, min(len(progs), 150)):
        add("memo", fn="memo", prog=x["prog"], fail=x["fail"], **sched())
    for i in range(60*q):
        n = rng.randint(2, 4)
        add("memo-random", fn="memo",
            prog=[[rng.randint(1, 3) for _ in range(rng.randint(1, 4))]
                  for _ in range(n)],
            fail=[rng.choice([0, 0, 1, 2]) for _ in range(3)], **sched())
    for i in range(80*q):
        n = rng.randint(2, 4)
        add("singleton", fn="single",
            prog=[[rng.randint(1, 2) for _ in range(rng.randint(1, 2))]
                  for _ in range(n)], **sched())
    for n in (0, 1, 2, 3):
        for rs in itertools.product(REQ, repeat=n):
            if n == 3 and rng.random() > 0.5*q:
                continue
            for test in (False, True):
                add("requires", fn="req", rs=list(rs), test=test,
                    meth=rng.random() < 0.2)
    for i in range(10):
        add("numbered", fn="sum", lines=[
            "".join(rng.choice(" abc\t{}") for _ in range(rng.randint(0, 9)))
            for _ in range(rng.randint(1, 30))])
    return cases


class Box:
    """One instance per case, told apart by its class."""


def execute(case, mode):
    c = case["in"]
    if c["fn"] == "req":
        return requires(c)
    if c["fn"] == "sum":
        from africanus.util.code import format_code
        out = format_code("\n".join(c["lines"])).split("\n")
        v = []
        for x in out[1:] if out and out[0] == "" else []:
            i, _, s = x.partition(" ")
            v.append([int(i), x[6:]])
        return dict(v=v)
    import random
    import threading
    import vtime
    clock = vtime.install()
    clock.begin()
    import africanus.util.code as code
    rng = random.Random(c["seed"])
    last = [0, 0]

    def choose(n):
        if last[1] <= 0 or last[0] >= n:
            last[:] = [rng.randrange(n), rng.randint(1, c["run"])]
        last[1] -= 1
        return last[0]
    ls = vtime.Lockstep(clock, [code.__file__, __file__], choose)
    ls.free = False
    o = dict(res=[["none"]*len(p) for p in c["prog"]], done=False)
    if c["fn"] == "memo":
        o["evals"] = []
        tokens = {}
        count = {}

        @code.memoize_on_key(lambda *a, **kw: a[0])
        def f(k, other, kw=None):
            n = count.get(k, 0)
            count[k] = n + 1
            ok = n >= c["fail"][k-1]
            o["evals"].append([k, ok])
            if not ok:
                raise ZeroDivisionError
            v = Box()
            tokens.setdefault(k, v)
            return v

        def call(t, i, k):
            try:
                v = f(k, t, kw=i)
            except ZeroDivisionError:
                o["res"][t][i] = "error"
                return
            for j, x in list(tokens.items()):
                if x is v:
                    o["res"][t][i] = "value%d" % j
    else:
        o["made"] = [0, 0]

        class A(code.SingletonMixin):
            def __init__(self):
                n = o["made"][0]
                self.k = 1
                o["made"][0] = n + 1

        class B(code.SingletonMixin):
            def __init__(self):
                n = o["made"][1]
                self.k = 2
                o["made"][1] = n + 1
        first = {}

        def call(t, i, k):
            v = (A, B)[k-1].instance()
            w = first.setdefault(k, v)
            o["res"][t][i] = v.k if v is w else 0

    def body(t):
        for i, k in enumerate(c["prog"][t]):
            call(t, i, k)
    ths = [threading.Thread(target=body, args=(t,), daemon=True)
           for t in range(len(c["prog"]))]
    threading.settrace(ls.trace)
    try:
        for t in ths:
            clock.known.add(t)
            t.start()
        o["done"] = ls.run(ths, limit=20000)
    finally:
        threading.settrace(None)
        ls.stop()
    for t in ths:
        t.join(5)
    o["done"] = bool(o["done"] and not any(t.is_alive() for t in ths))
    return o


def requires(c):
    import inspect
    import africanus.util.requirements as rq
    import africanus.util.testing as ts
    o = dict(call="", names=True, same=True, dec="")
    item = dict(have="json", none=None, force=ts.force_missing_pkg_exception,
                bad=3)
    rs, miss = [], []
    for i, r in enumerate(c["rs"]):
        if r == "miss":
            miss.append("africanus_missing_%d" % i)
            rs.append(miss[-1])
        elif r == "error":
            rs.append(ImportError("user error %d" % i))
        else:
            rs.append(item[r])

    def fun(a, b=2, *args, **kwargs):
        """ Documented """
        return (a, b, args, kwargs)
    old = ts.in_pytest()
    ts.mark_in_pytest(c["test"])
    try:
        try:
            g = rq.requires_optional(*rs)(fun)
        except (TypeError, ImportError) as e:
            o["dec"] = type(e).__name__
            if o["dec"] == "ImportError":
                o["names"] = all("user error %d" % i in str(e)
                                 for i, r in enumerate(c["rs"])
                                 if r == "error")
            return o
        o["dec"] = "original" if g is fun else "wrapper"
        o["same"] = bool(g.__name__ == "fun" and g.__doc__ == fun.__doc__
                         and str(inspect.signature(g))
                         == str(inspect.signature(fun)))
        try:
            v = g(1, 5, 6, k=7)
            o["call"] = "value" if v == (1, 5, (6,), {"k": 7}) else "wrong"
        except BaseException as e:
            o["call"] = type(e).__name__
            o["names"] = all(m in str(e) for m in miss)
    finally:
        ts.mark_in_pytest(old)
    return o
