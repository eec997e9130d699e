"""C17: WSClean component files."""
TRACE = "WsFileTrace"
MC = [dict(module="WsFileMC", cfg="WsFileMC.cfg", workers=2)]
MC_THOROUGH = [dict(module="WsFileMC", cfg="WsFileMC_thorough.cfg",
                    workers=8)]
NPROC = {"interp": 4}
COLS = ["Name", "Type", "Ra", "Dec", "I", "SpectralIndex", "LogarithmicSI",
        "ReferenceFrequency", "MajorAxis", "MinorAxis", "Orientation"]
CANBAD = {"Ra", "Dec", "I", "ReferenceFrequency", "MajorAxis", "MinorAxis",
          "Orientation"}


def dec(rng, n, d):
    """Text of n / 10^d."""
    s = "-" if n < 0 else rng.choice(["", "", "+"])
    a = str(abs(n)).rjust(d + 1, "0")
    i, f = a[:-d], a[-d:]
    f = f if rng.random() < 0.5 else f.rstrip("0")
    r = rng.random()
    if r < 0.15:
        return "%s%se-%d" % (s, str(abs(n)), d)
    return s + i + ("." + f if f else rng.choice(["", ".", ".0"]))


def field(rng, col):
    """(text, value)."""
    ri = rng.randint
    if col == "Name":
        s = rng.choice(["s0c0", "src 1", "3C48", "a'b", "x=y", "A"])
        return s, s
    if col == "Type":
        s = rng.choice(["POINT", "GAUSSIAN"])
        return s, s
    if col in ("Ra", "Dec"):
        top = 23 if col == "Ra" else 89
        a, b, c = ri(0, top), ri(0, 59), ri(0, 5999)
        if rng.random() < 0.2:
            a = 0
        neg = rng.random() < 0.4
        sec = "%d.%02d" % (c//100, c % 100)
        if c % 100 == 0 and rng.random() < 0.5:
            sec = "%d" % (c//100)
        elif rng.random() < 0.3:
            sec = "%05.2f" % (c/100)
        f = "%02d" if rng.random() < 0.7 else "%d"
        sep = ":" if col == "Ra" else "."
        t = ("-" if neg else rng.choice(["", "+"])) + f % a + sep + f % b + \
            sep + sec
        v = (a*3600 + b*60)*100 + c
        return t, -v if neg else v
    if col == "SpectralIndex":
        n = ri(0, 3)
        v = [ri(-30000, 30000) for _ in range(n)]
        sep = rng.choice([",", ", ", " , "])
        t = [dec(rng, x, 4) for x in v]
        return rng.choice(["[%s]", "[ %s ]"]) % sep.join(t), v
    if col == "LogarithmicSI":
        b = rng.random() < 0.5
        return ("true" if b else "false"), b
    if col == "ReferenceFrequency":
        v = ri(0, 1900000)
        return rng.choice(["%d000" % v, "%d000.0" % v, "%de3" % v]), v
    d, m = {"I": (4, 10**6), "MajorAxis": (2, 99999),
            "MinorAxis": (2, 99999), "Orientation": (2, 36000)}[col]
    v = ri(-m if col in ("I", "Orientation") else 0, m)
    return dec(rng, v, d), v


def header(rng, names, defs, ok):
    cols, t = [], []
    for n, d in zip(names, defs):
        if d and n in COLS and n != "SpectralIndex":
            x, v = field(rng, n)
            while "'" in x or "=" in x:
                x, v = field(rng, n)
        else:
            d, x, v = False, "", 0
        cols.append(dict(name=n, **{"def": dict(p=d, v=v)}))
        t.append(n + (rng.choice(["='%s'", " = '%s'", "= '%s'"]) % x
                      if d else ""))
    text = ("Format" if ok else rng.choice(["Formal", "format", "#Format"
                                            ])) + \
        rng.choice([" = ", "=", " ="]) + rng.choice([", ", ",", " , "]
                                                    ).join(t)
    if text[0] == "#":
        text = text[1:].replace("Format", "Fmt")
    if rng.random() < 0.15:
        text += " # " + rng.choice(["comment", "a, b"])
    if rng.random() < 0.1:
        text = "  " + text
    return dict(k="header", ok=ok, cols=cols, t=text)


def row(rng, cols, n, miss, bad):
    names = [c["name"] for c in cols]
    f, t = [], []
    for i in range(n):
        name = names[i] if i < len(names) and names[i] in COLS else "I"
        x, v = field(rng, name)
        ok = True
        if i < len(miss) and miss[i]:
            f.append(dict(p=False, ok=True, v=0))
            t.append("")
            continue
        if bad == i and name in CANBAD:
            x, v, ok = rng.choice(["abc", "1..2:3", "--"]), 0, False
        f.append(dict(p=True, ok=ok, v=v))
        t.append(x)
    return dict(k="row", f=f, t=rng.choice([",", ", ", ",  "]).join(t))


def other(rng, k):
    if k == "blank":
        return dict(k=k, t=rng.choice(["", "  ", "\t"]))
    return dict(k=k, t=rng.choice(["# comment", "#", "  # Format = Name"]))


def finish(rng, lines):
    return dict(lines=lines, how=rng.choice(["list", "gen", "file", "file",
                                             "noeol"]))


def from_spec(rng, x):
    out, cols = [], None
    for ln in x["lines"]:
        if ln["k"] == "header":
            h = header(rng, ln["names"], ln["def"], ln["ok"])
            if cols is None:
                cols = h["cols"]
            out.append(h)
        elif ln["k"] == "row":
            out.append(row(rng, cols or [], ln["n"], ln["miss"],
                           0 if ln["bad"] else -1))
        else:
            out.append(other(rng, ln["k"]))
    return finish(rng, out)


def rand(rng, rows=None):
    out = [other(rng, rng.choice(["blank", "comment"]))
           for _ in range(rng.choice([0, 0, 1, 2]))]
    names = rng.sample(COLS, rng.randint(2, len(COLS)))
    if rng.random() < 0.03:
        names[rng.randrange(len(names))] = rng.choice(["Q", "ra", ""])
    h = header(rng, names, [rng.random() < 0.3 for _ in names],
               rng.random() > 0.03)
    out.append(h)
    pm = rng.choice([0, 0, 0.3])
    slip = 0.04 if rows is None else 0
    for _ in range(rng.randint(0, 6) if rows is None else rows):
        n = len(names)
        if rng.random() < slip:
            n += rng.choice([-1, 1])
        miss = [rng.random() < pm and
                (nm not in ("Ra", "Dec", "SpectralIndex", "LogarithmicSI")
                 or rng.random() < 0.2) for nm in names]
        out.append(row(rng, h["cols"], n, miss,
                       rng.randrange(len(names))
                       if rng.random() < slip else -1))
    return finish(rng, out)


def gen(rng, tier, emitted):
    cases = []
    q = 1 if tier == "quick" else 10

    def add(kind, c):
        cases.append(dict(kind=kind, modes=["interp"], grp="", **{"in": c}))
    for x in sorted((x for _, em in emitted for x in em), key=str):
        if q == 1 or rng.random() < 0.2:
            add("lines-from-spec", from_spec(rng, x))
    for i in range(800*q):
        add("random-file", rand(rng))
    for i in range(16*q):
        add("long-file", rand(rng, rng.choice([20, 50, 110])))
    add("empty-file", finish(rng, []))
    return cases


def execute(case, mode):
    import os
    import re
    import tempfile
    import numpy as np
    from enc import fx1
    from africanus.model.wsclean import load
    c = case["in"]
    lines = [x["t"] for x in c["lines"]]
    tmp = None
    if c["how"] == "file":
        fd, tmp = tempfile.mkstemp(suffix=".txt", dir=os.getcwd())
        with os.fdopen(fd, "w") as f:
            f.write("".join(x + "\n" for x in lines))
        src = tmp
    elif c["how"] == "gen":
        src = (x + "\n" for x in lines)
    elif c["how"] == "noeol":
        src = list(lines)
    else:
        src = [x + "\n" for x in lines]
    try:
        r = list(load(src))
    except ValueError as e:
        if type(e) is not ValueError:
            raise
        m = re.search(r"\bline (\d+)", str(e))
        return dict(err="ValueError", line=int(m.group(1)) if m else 0,
                    names=[], vals=[])
    finally:
        if tmp:
            os.unlink(tmp)
    asec = 3600*180/np.pi
    sc = {"Ra": 86400/(2*np.pi)*100, "Dec": asec*100, "I": 1e4,
          "ReferenceFrequency": 1e-3, "MajorAxis": asec*100,
          "MinorAxis": asec*100, "Orientation": 180/np.pi*100}

    def val(n, v):
        if n in ("Name", "Type"):
            assert isinstance(v, str)
            return v
        if n == "LogarithmicSI":
            assert v is True or v is False
            return v
        if n == "SpectralIndex":
            return [fx1(x, 1e4) for x in v]
        return fx1(v, sc[n])
    return dict(err="", line=0, names=[n for n, _ in r],
                vals=[[val(n, x) for x in v] for n, v in r])
