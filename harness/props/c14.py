"""C14: beam FITS headers and file name schemas."""
NPROC = {"interp": 4}
MC = [dict(module="BeamHdrMC", cfg="BeamHdrMC.cfg", workers=1)]
MC_THOROUGH = [dict(module="BeamHdrMC", cfg="BeamHdrMC_thorough.cfg",
                    workers=1)]
TRACE = "BeamHdrTrace"
LIT = ["b_", "x", ".fits", "-", "/", "beam", "(", ")", "corr", " ", "{", "%d"]


def axis(rng, t):
    a = dict(up=t, type=t, n=rng.randint(1, 6), crval=rng.randint(-20, 20),
             crpix=rng.randint(-1, 8), cdelt=rng.choice([-3, -1, 1, 2, 5]),
             deg=t not in ("FREQ", "STOKES", "FOO") and rng.random() < 0.6,
             irr=[], part=[], pad=rng.random() < 0.4)
    if t != "FREQ" and rng.random() < 0.2:
        a["type"] = t.lower()
    a["unit"] = "HZ" if t == "FREQ" else "" if rng.random() < 0.5 else "RAD"
    a["ucase"] = rng.random() < 0.3
    a["nokey"] = []
    if rng.random() < 0.2:
        a["nokey"].append("CRVAL")
        a["crval"] = 0
    if rng.random() < 0.2:
        a["nokey"].append("CDELT")
        a["cdelt"] = 1
    if a["deg"]:
        a["unit"] = "DEG"
        if "CDELT" in a["nokey"]:
            a["nokey"].remove("CDELT")
    elif a["unit"] == "" and rng.random() < 0.7:
        a["nokey"].append("CUNIT")
    if t == "FREQ" or (not a["deg"] and rng.random() < 0.15):
        r = rng.random()
        v = [rng.randint(-50, 50) for _ in range(a["n"])]
        if r < 0.4:
            a["irr"] = v
        elif r < 0.7 and a["n"] > 1:
            # incomplete explicit grids do not count
            v[rng.randrange(a["n"])] = 999
            a["part"] = v
    return a


def header(rng, types, fn):
    c = dict(fn=fn, S=1000, axes=[axis(rng, t) for t in types])
    for i, a in enumerate(c["axes"], 1):
        if a["up"] == "FOO" and rng.random() < 0.5:
            a["nokey"].append("CTYPE")
            a["up"] = a["type"] = str(i)
            a["irr"] = a["part"] = []
    c["laxis"] = rng.choice(["", "L", "-L", "X", "-X", "PX", "-PX"])
    c["maxis"] = rng.choice(["", "M", "-M", "Y", "-Y", "PY", "-PY"])
    c["lsign"] = -1 if c["laxis"][:1] == "-" else 1
    c["msign"] = -1 if c["maxis"][:1] == "-" else 1
    c["fits"] = rng.random() < 0.3 and all(
        a["type"] for a in c["axes"])
    return c


def files(rng, toks):
    c = dict(fn="files", toks=toks, ids=rng.sample(
        range(1, 21), rng.randint(1, 4)))
    if rng.random() < 0.04:
        c["ids"][rng.randrange(len(c["ids"]))] = 77
    c["brace"] = [rng.random() < 0.7 for _ in toks]
    return c


def gen(rng, tier, emitted):
    cases = []
    quick = tier == "quick"

    def add(kind, c):
        cases.append(dict(kind=kind, modes=["interp"], grp="",
                          **{"in": c}))
    lines = [x for _, em in emitted for x in em]
    rng.shuffle(lines)
    ax = [x for x in lines if x["kind"] == "axes"]
    sc = [x for x in lines if x["kind"] == "schema"]
    for x in ax[:800 if quick else 5000]:
        add("layout-from-spec", header(rng, x["axes"], "grids"))
        if rng.random() < 0.5:
            add("axes", header(rng, x["axes"], "axes"))
    for x in sc[:800 if quick else 3000]:
        add("schema-from-spec", files(rng, x["toks"]))
    add("axes", header(rng, [], "axes"))
    for i in range(200 if quick else 3000):
        types = rng.sample(["L", "M", "FREQ", "STOKES", "FOO"],
                           rng.randint(1, 5))
        types = [rng.choice({"L": ["L", "X", "PX"],
                             "M": ["M", "Y", "PY"]}.get(t, [t]))
                 for t in types]
        add("random-axes", header(rng, types,
                                  rng.choice(["grids", "axes"])))
        toks = [rng.choice([dict(k="lit", s=rng.choice(LIT)),
                            dict(k="var", s=rng.choice(
                                ["corr", "CORR", "reim", "REIM"])),
                            dict(k="esc", s="")])
                for _ in range(rng.randint(1, 7))]
        if rng.random() < 0.05:
            toks.append(dict(k="var", s=rng.choice(["chan", "Corr"])))
        add("random-schema", files(rng, toks))
    return cases


def execute(case, mode):
    import numpy as np
    from enc import fx, keep
    from africanus.util import beams
    c = case["in"]
    if c["fn"] == "files":
        s = ""
        n = len(c["toks"])
        for i, (t, b) in enumerate(zip(c["toks"], c["brace"])):
            if t["k"] == "lit":
                s += t["s"]
            elif t["k"] == "esc":
                s += "$$"
            else:
                # unbraced only where no identifier character follows
                nx = c["toks"][i+1] if i + 1 < n else None
                if not b and (nx is None or nx["k"] != "lit" or
                              nx["s"][0] in "./-() {%"):
                    s += "$" + t["s"]
                else:
                    s += "$(%s)" % t["s"]
        r = beams.beam_filenames(s, list(c["ids"]))
        return dict(keys=list(r), files=[list(v) for v in r.values()])
    h = {"NAXIS": len(c["axes"])}
    for i, a in enumerate(c["axes"], 1):
        h["NAXIS%d" % i] = a["n"]
        if "CTYPE" not in a["nokey"]:
            h["CTYPE%d" % i] = a["type"] + ("   " if a["pad"] else "")
        h["CRPIX%d" % i] = a["crpix"]
        if "CRVAL" not in a["nokey"]:
            h["CRVAL%d" % i] = a["crval"]
        if "CDELT" not in a["nokey"]:
            h["CDELT%d" % i] = a["cdelt"]
        if "CUNIT" not in a["nokey"]:
            u = a["unit"].lower() if a["ucase"] else a["unit"]
            h["CUNIT%d" % i] = u + ("  " if a["pad"] else "")
        for j, v in enumerate(a["irr"] or a["part"], 1):
            if v != 999:
                h["G%s%d" % (a["type"], j)] = float(v)
    if c["fits"]:
        from astropy.io import fits
        h2 = fits.Header()
        for k, v in h.items():
            h2[k] = v
        h = h2
    snap = dict(h)

    def un(g, a):
        g = np.asarray(g, float)
        keep(g)
        return fx(np.rad2deg(g) if a["deg"] else g, c["S"])
    if c["fn"] == "axes":
        b = beams.BeamAxes(h) if c["axes"] else beams.BeamAxes()
        return dict(ndims=int(b.ndims), type=list(b.ctype),
                    unit=list(b.cunit), crpix=[int(x) for x in b.crpix],
                    crval=[un(x, a) for x, a in zip(b.crval, c["axes"])],
                    cdelt=[un(x, a) for x, a in zip(b.cdelt, c["axes"])],
                    grid=[un(x, a) for x, a in zip(b.grid, c["axes"])],
                    inputs_ok=dict(h) == snap)
    r = beams.beam_grids(h, c["laxis"] or None, c["maxis"] or None)
    ax = [int(x[0]) for x in r]
    return dict(ax=ax, inputs_ok=dict(h) == snap,
                **{k: un(x[1], c["axes"][x[0]-1])
                   for k, x in zip("lmf", r)})
