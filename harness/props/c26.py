"""C26: assignments on the command line and rotations of registers."""
import json
TRACE = "AssignTrace"
MC = [dict(module="AssignMC", cfg="AssignMC.cfg", workers=2)]
MC_THOROUGH = MC + [dict(module="AssignMC", cfg="AssignMC_thorough.cfg",
                         workers=6)]
NPROC = {"interp": 4}
NAMES = ["a", "b", "c", "beta", "_x1", "slice", "l"]
CALLS = ["open", "eval", "__import__", "np.array", "a.slice", "slices",
         "list", "(lambda: 1)", "range", "slice.__call__"]


def leaf(k, v=""):
    return dict(k=k, v=v, e=[])


def expr(rng, depth=2, lit=False):
    r = rng.random()
    sub = lit or rng.random() < 0.92
    if depth > 0 and r < 0.35:
        k = rng.choice(["list", "tuple", "dict"])
        n = rng.randint(0, 3)
        if k == "dict":
            ks = {}
            for _ in range(n):
                x = rng.choice([leaf("int", str(rng.randint(0, 9))),
                                leaf("str", rng.choice("abc;="))])
                ks[x["k"] + x["v"]] = x
            return dict(k=k, v="", e=[dict(k="pair", v="", e=[
                x, expr(rng, depth-1, sub)]) for x in ks.values()])
        return dict(k=k, v="", e=[expr(rng, depth-1, sub) for _ in range(n)])
    if not lit and r < 0.5:
        if rng.random() < 0.12:
            return dict(k="call", v=rng.choice(CALLS),
                        e=[expr(rng, 1) for _ in range(rng.randint(0, 2))])
        args = [expr(rng, depth-1, rng.random() < 0.95)
                for _ in range(rng.choice([0] + [1, 2, 3]*6 + [4]))]
        if rng.random() < 0.06:
            args.append(dict(k="kw", v=rng.choice(["stop", "step"]),
                             e=[expr(rng, 0, True)]))
        return dict(k="call", v="slice", e=args)
    if not lit and r < 0.51:
        return leaf(rng.choice(["var", "sum", "lambda"]),
                    rng.choice(NAMES[:3]))
    k = rng.choice(["int", "int", "float", "complex", "str", "str", "bytes",
                    "bool", "none"])
    if k == "int":
        return leaf(k, str(rng.choice([0, 1, -1, 7, 2**70,
                                       rng.randint(-99, 99)])))
    if k == "float":
        return leaf(k, repr(rng.choice([0.0, 5.6, -1.5, 1e300, 1e-9])))
    if k == "complex":
        return leaf(k, repr(complex(rng.randint(-3, 3) + 0.5,
                                    rng.randint(1, 4))))
    if k == "str":
        return leaf(k, "".join(rng.choice("ab;=,# '\"[é")
                               for _ in range(rng.randint(0, 6))))
    if k == "bytes":
        return leaf(k, "".join(rng.choice("ab;=") for _ in range(2)))
    if k == "bool":
        return leaf(k, rng.choice(["True", "False"]))
    return leaf("none")


def target(rng, v):
    r = rng.random()
    if r < 0.55:
        return dict(k="name", n=[rng.choice(NAMES)])
    if r < 0.93:
        n = len(v["e"]) if v["k"] in ("list", "tuple") and \
            rng.random() < 0.9 else rng.randint(1, 3)
        if n == 0:
            n = 1
        return dict(k="seq", n=[rng.choice(NAMES) for _ in range(n)])
    if r < 0.96:
        return dict(k="nested", n=[])
    return dict(k="other", n=[])


def statement(rng):
    if rng.random() < 0.03:
        return dict(k="expr", t=[], v=leaf("none"))
    v = expr(rng)
    return dict(k="assign", v=v,
                t=[target(rng, v) for _ in range(rng.choice([1, 1, 1, 2, 3]))])


def gen(rng, tier, emitted):
    cases = []
    q = 1 if tier == "quick" else 10

    def add(name, **c):
        cases.append(dict(kind=name, modes=["interp"], grp="", **{"in": c}))
    progs = sorted({json.dumps(x, sort_keys=True)
                    for _, em in emitted for x in em})
    if tier == "quick":
        progs = rng.sample(progs, min(1500, len(progs)))
    for x in progs:
        add("model", fn="assign", prog=json.loads(x),
            seed=rng.randint(0, 10**6))
    add("empty", fn="assign", prog=[], seed=0)
    for i in range(1500*q):
        add("random", fn="assign", seed=rng.randint(0, 10**6),
            prog=[statement(rng) for _ in range(rng.randint(1, 4))])
    for n in range(1, 13 if tier == "quick" else 30):
        for r in range(0, 2*n + 2):
            add("cycles", fn="cycles", n=n, c=r)
    return cases


def show(rng, x, top=False):
    k, v, e = x["k"], x["v"], x["e"]
    sp = rng.choice(["", "", " "])
    if k == "int":
        n = int(v)
        return v if n < 0 or rng.random() < 0.8 else \
            rng.choice([hex(n), oct(n), bin(n)])
    if k == "str":
        r = repr(v)
        if rng.random() < 0.3 and not v.endswith('"') \
                and '"""' not in v:
            r = '"""%s"""' % v
        elif rng.random() < 0.2 and len(v) > 1:
            r = repr(v[:1]) + " " + repr(v[1:])
        return r
    if k == "bytes":
        return "b" + repr(v)
    if k == "none":
        return "None"
    if k in ("float", "complex", "bool", "var"):
        return v
    if k == "sum":
        return rng.choice(["%s + 1", "-%s", "1 if %s else 2", "%s.real",
                           "%s[0]", "not %s", "[%s for i in 'ab']"]) % v
    if k == "lambda":
        return "lambda: %s" % v
    if k == "kw":
        return "%s=%s" % (v, show(rng, e[0]))
    el = [("(%s)" % s if y["k"] == "lambda" else s)
          for y, s in ((y, show(rng, y)) for y in e)]
    sep = "," + rng.choice(["", " "])
    tail = sp if not el or rng.random() < 0.8 else "," + sp
    if k == "list":
        return "[" + sp + sep.join(el) + tail + "]"
    if k == "tuple":
        body = sep.join(el) + ("," if len(el) == 1 else "")
        if top and el and rng.random() < 0.4:
            return body
        return "(" + body + ")"
    if k == "dict":
        return "{" + sp + sep.join(el) + tail + "}"
    if k == "pair":
        return el[0] + ":" + sp + el[1]
    if k == "call":
        return v + "(" + sp + sep.join(el) + ")"
    raise ValueError(k)


def lhs(rng, t):
    if t["k"] == "name":
        return t["n"][0]
    if t["k"] == "seq":
        s = ", ".join(t["n"]) + ("," if len(t["n"]) == 1 else "")
        return rng.choice([s, "(" + s + ")", "[" + s + "]"])
    if t["k"] == "nested":
        return rng.choice(["(a, (b, c))", "a, b.c", "[a[0], b]", "*a, b"])
    return rng.choice(["a.b", "a[0]", "a[1:2]"])


def source(c):
    import random
    rng = random.Random(c["seed"])
    out = []
    for x in c["prog"]:
        if x["k"] == "expr":
            out.append(rng.choice(["a", "print(3)", "a += 1", "del a", "pass",
                                   "import os", "a: int = 3", "a == 3",
                                   "slice(3)", "'doc'"]))
            continue
        eq = rng.choice(["=", " = "])
        out.append(eq.join([lhs(rng, t) for t in x["t"]]
                           + [show(rng, x["v"], True)]))
    s = rng.choice([";", "; ", " ; "]).join(out)
    if out and rng.random() < 0.2:
        s += ";"
    return s


def encode(v):
    if isinstance(v, bool):
        return leaf("bool", str(v))
    if v is None:
        return leaf("none")
    for t in (int, float, complex):
        if type(v) is t:
            return leaf(t.__name__, repr(v))
    if isinstance(v, str):
        return leaf("str", v)
    if isinstance(v, bytes):
        return leaf("bytes", v.decode())
    if isinstance(v, slice):
        return dict(k="slice", v="", e=[encode(x) for x in
                                        (v.start, v.stop, v.step)])
    if type(v) in (list, tuple):
        return dict(k=type(v).__name__, v="", e=[encode(x) for x in v])
    if type(v) is dict:
        return dict(k="dict", v="", e=[dict(k="pair", v="", e=[
            encode(a), encode(b)]) for a, b in v.items()])
    return leaf("unknown " + type(v).__name__)


def execute(case, mode):
    c = case["in"]
    if c["fn"] == "cycles":
        from africanus.util.jinja2 import register_assign_cycles
        return dict(cs=[[[int(a), int(b)] for a, b in y]
                        for y in register_assign_cycles(c["n"], c["c"])])
    from africanus.util.cmdline import parse_python_assigns
    r = parse_python_assigns(source(c))
    assert type(r) is dict
    return dict(r=[[n, encode(v)] for n, v in sorted(r.items())])
