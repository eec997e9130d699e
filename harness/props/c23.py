"""C23: the progress bar under every schedule of its threads."""
HISTORY = False
TRACE = "ProgressTrace"
MC = [dict(module="ProgressMC", cfg="ProgressMC.cfg", workers=4),
      dict(module="ProgressMC", cfg="ProgressMC_live.cfg", workers=2)]
MC_THOROUGH = [dict(module="ProgressMC", cfg="ProgressMC_thorough.cfg",
                    workers=6)]
NPROC = {"interp": 6}
UNITS = [[1, 4], [1, 1], [60, 1], [3600, 1], [3, 4]]


def opts(rng):
    return dict(u=rng.choice(UNITS), dt=rng.choice([1, 1, 2, 3]),
                min=rng.choice([0, 0, 0, 2, 5]),
                width=rng.choice([42, 10, 60]))


def tasks(rng, gs=None):
    gs = gs or [rng.choice("abc") for _ in range(rng.randint(1, 9))]
    out, n = [], {}
    for g in gs:
        n[g] = n.get(g, 0) + 1
        if n[g] <= 4:
            out.append([g, rng.randint(1, 6)])
    return out


def gen(rng, tier, emitted):
    cases = []
    q = 1 if tier == "quick" else 6

    def add(name, **c):
        cases.append(dict(kind=name, modes=["interp"], grp="",
                          **{"in": c}))

    def comp(gs=None):
        keys = rng.choice(["tuple", "tuple", "str", "bytes"])
        ts = tasks(rng, gs)
        if keys != "tuple":
            # keys that are not tuples are groups of their own
            ts = [t for k, t in enumerate(ts)
                  if t[0] not in [x[0] for x in ts[:k]]]
        return dict(tasks=ts, gap=rng.choice([0, 0, 1, 2, 5]), keys=keys,
                    fail=False)
    hist = sorted({str(x["comps"]): x["comps"]
                   for _, em in emitted for x in em}.items())
    for _, h in hist:
        c = opts(rng)
        c["min"] = 0
        add("emitted", fn="run", comps=[comp(gs) for gs in h], **c)
    for i in range(250*q):
        add("random", fn="run", **opts(rng),
            comps=[comp() for _ in range(rng.randint(1, 3))])
    for i in range(12):
        # every option left at its default
        add("defaults", fn="run", u=[1, 1], dt=1, min=0, width=42,
            comps=[comp() for _ in range(rng.randint(1, 2))])
    for i in range(20):
        c = comp()
        c["fail"] = True
        add("failing", fn="run", comps=[c, comp()], **opts(rng))
    for i in range(2*q):
        for op in ("post", "finish", "restart"):
            o = opts(rng)
            o.update(min=0, dt=1, u=rng.choice([[1, 1], [60, 1]]))
            ts = tasks(rng, ["a", "a", "b"])
            at = ts[0][1] + 1
            ts[1][1] = max(ts[1][1], 2)
            for n in range(1, 60):
                add("race", fn="race", op=op, at=at, n=n,
                    comps=[dict(tasks=ts, keys="tuple")], **o)
    for i in range(500*q):
        o = opts(rng)
        o.update(min=0, dt=1, u=rng.choice([[60, 1], [3600, 1]]))
        m = rng.randint(1, 3)
        gs = [rng.choice("ab") for _ in range(m + 3)]
        if m > 1:
            gs[:2] = rng.choice(["ab", "ab", "ba", "aa"])
        ts = tasks(rng, gs)
        m = min(m, len(ts) - 2)
        add("mix", fn="mix", m=m, at=sum(t[1] for t in ts[:m]) + 1,
            comps=[dict(tasks=ts, keys="tuple")],
            seed=rng.randint(0, 10**6), run=rng.choice([1, 2, 4, 8, 16]),
            op=rng.choice(["post"]*3 + ["finish"] + ["restart"]*3), **o)
    s = [0, 1, 3, 4, 237, 239, 240, 241, 475, 479, 480, 14399, 14400,
         345599, 345600, 2419199, 2419200, 4838399, 24192000]
    s += [rng.randint(0, 5*10**6) for _ in range(100)]
    add("time", fn="time", s=s)
    return cases


def human(s):
    import re
    s = s.strip()
    if s == "???":
        return ["?", 0, 0]
    m = re.fullmatch(r"(\d+)s", s)
    if m:
        return ["s", int(m[1]), 0]
    m = re.fullmatch(r"(\d+)([wdhm]) *(\d+)([dhms])", s)
    if not m or m[2] + m[4] not in ("wd", "dh", "hm", "ms"):
        return ["bad", 0, 0]
    return [m[2], int(m[1]), int(m[3])]


class Out:
    """Records what is drawn, and when."""
    def __init__(self, clock):
        self.clock, self.log, self.buf = clock, [], ""

    def write(self, s):
        self.log.append((self.clock.now, s))
        return len(s)

    def flush(self):
        pass


def parse(s, T, width):
    import re
    m = re.fullmatch(r"\r\[(.*)\] \| (-?\d+)% Complete \(Estimate\) \| "
                     r"(.*) / ~(.*)", s)
    if not m or len(m[1]) != width:
        return dict(T=T, hash=-9, pct=-9, el=["bad", 0, 0], est=["bad", 0, 0])
    bar = m[1]
    h = -1 if "estimate improves"[:len(bar)-1] in bar else bar.count("#")
    if h >= 0 and bar != "#"*h + " "*(width-h):
        h = -9
    return dict(T=T, hash=h, pct=int(m[2]), el=human(m[3]),
                est=human(m[4]))


def execute(case, mode):
    import vtime
    clock = vtime.install()
    import sys
    import threading
    mod = sys.modules.get("africanus.util.dask_util")
    if mod is None or not getattr(mod, "_vt", False):
        mod = vtime.fresh("africanus.util.dask_util")
        mod._vt = True
    c = case["in"]
    if c["fn"] == "time":
        return dict(v=[human(mod.format_time(s/4)) for s in c["s"]])
    clock.begin()
    tick = c["u"][0]/c["u"][1]
    out = Out(clock)
    if case["kind"] == "defaults":
        stdout, sys.stdout = sys.stdout, out
        try:
            bar = mod.EstimatingProgressBar()
        finally:
            sys.stdout = stdout
    else:
        bar = mod.EstimatingProgressBar(minimum=c["min"]*tick,
                                        width=c["width"], dt=c["dt"]*tick,
                                        out=out)
    o = dict(msgs=[], late=0, left=0, res_ok=True)

    def live():
        return sum(t.is_alive() for t in threading.enumerate()
                   if t not in clock.known
                   and t is not threading.main_thread())

    def key(comp, k):
        g = comp["tasks"][k][0]
        if comp["keys"] == "tuple":
            return (g, k)
        return g if comp["keys"] == "str" else g.encode()

    def ticks(x):
        return int(round(x/tick))

    def take(i, t0):
        return [parse(s, ticks(t - t0), c["width"]) for t, s in out.log[i:]]
    if c["fn"] == "run":
        from dask.local import get_sync
        with bar:
            for comp in c["comps"]:
                ts = comp["tasks"]
                n0 = len(out.log)
                clock.advance(comp["gap"]*tick)
                o["late"] += len(out.log) - n0
                n0, t0 = len(out.log), clock.now
                dsk = {}
                for k, (g, dur) in enumerate(ts):
                    def f(prev, dur=dur, k=k):
                        clock.advance(dur*tick)
                        if comp["fail"] and k == len(ts) - 1:
                            raise ZeroDivisionError
                        return prev + 1
                    dsk[key(comp, k)] = (f, key(comp, k-1) if k else 0)
                try:
                    r = get_sync(dsk, key(comp, len(ts)-1))
                    o["res_ok"] &= r == len(ts) and not comp["fail"]
                except ZeroDivisionError:
                    o["res_ok"] &= comp["fail"]
                # a timer that outlives its computation shows up later
                o["msgs"].append(take(n0, t0))
        n0 = len(out.log)
        clock.advance(c["dt"]*tick*3)
        o["left"] = live()
        o["late"] += len(out.log) - n0
    elif c["fn"] == "mix":
        import random
        rng = random.Random(c["seed"])
        last = [0, 0]

        def choose(n):
            # runs of steps of one thread
            if last[1] <= 0 or last[0] >= n:
                last[:] = [rng.randrange(n), rng.randint(1, c["run"])]
            last[1] -= 1
            return last[0]
        comp = c["comps"][0]
        start, _, pre, post, finish = bar._callback
        dsk = {key(comp, k): None for k in range(len(comp["tasks"]))}
        ls = vtime.Lockstep(clock, [mod.__file__], choose)
        try:
            threading.settrace(ls.trace)
            start(dsk)
            clock.settle()
            t0, m = clock.now, c["m"]
            for k in range(m):
                pre(key(comp, k), dsk, {})
                clock.advance(comp["tasks"][k][1]*tick)
                post(key(comp, k), 1, dsk, {}, 0)
            for k in (m, m + 1):
                pre(key(comp, k), dsk, {})
            n0 = len(out.log)
            old = [t for t in threading.enumerate() if t in clock.sleepers]
            ls.free = False

            def step():
                if c["op"] == "post":
                    for k in (m, m + 1):
                        post(key(comp, k), 1, dsk, {}, 0)
                else:
                    finish(dsk, {}, False)
                    if c["op"] == "restart":
                        start({("z%d" % k, k): None for k in range(8)})
            th = threading.Thread(target=step)
            clock.known.add(th)
            th.start()
            clock.now += tick
            for t in old:
                clock.wake(t)
            o["done"] = ls.run(old + [th])
        finally:
            threading.settrace(None)
            ls.stop()
        th.join(10)
        clock.settle()
        o["msgs"].append(take(n0, t0))
        if c["op"] != "finish":
            finish(dsk, {}, False)
        n1 = len(out.log)
        clock.advance(tick*3)
        o["late"] = len(out.log) - n1
        o["left"] = live()
    else:
        comp = c["comps"][0]
        start, _, pre, post, finish = bar._callback
        dsk = {key(comp, k): None for k in range(len(comp["tasks"]))}
        with vtime.Stepper(clock, mod.__file__, c["n"]) as st:
            t0 = clock.now
            start(dsk)
            clock.settle()
            pre(key(comp, 0), dsk, {})
            clock.advance(comp["tasks"][0][1]*tick)
            post(key(comp, 0), 1, dsk, {}, 0)
            pre(key(comp, 1), dsk, {})
            n0 = len(out.log)
            st.armed = True
            clock.advance(tick)

            def step():
                if c["op"] == "post":
                    post(key(comp, 1), 1, dsk, {}, 0)
                else:
                    finish(dsk, {}, False)
                    if c["op"] == "restart":
                        start({("z%d" % k, k): None for k in range(5)})
            th = threading.Thread(target=step)
            clock.known.add(th)
            threading.settrace(None)
            th.start()
            th.join(0.1 if st.paused.is_set() else 10)
            st.release()
            th.join(10)
            clock.settle()
            o["msgs"].append(take(n0, t0))
            n1 = len(out.log)
            if c["op"] != "finish":
                finish(dsk, {}, False)
        clock.advance(tick*3)
        o["late"] = len(out.log) - n1
        o["left"] = live()
        o["paused"] = st.paused.is_set()
    o["errors"] = list(clock.errors)
    return o
