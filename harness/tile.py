"""Long arrays whose elements repeat those of a short case.

The specification judges the short case; the implementation is given a long
one in which every element along some axes is one of the short case's, in a
random order.  The short case's elements come first, so the output for them
is what is recorded, together with whether all other elements came out as
their originals did.  Along an axis that is summed over, the elements of the
short case are scattered among elements that contribute nothing.
"""
import copy


def take(x, idx, axis):
    if axis == 0:
        return [x[i] for i in idx]
    return [take(y, idx, axis-1) for y in x]


def close(a, b, tol):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(
            close(x, y, tol) for x, y in zip(a, b))
    # rounding differs by a few units in the last place at most
    return a == b or abs(a - b) <= tol + abs(a)*1e-4


def size(x, axis):
    return len(x) if axis == 0 else size(x[0], axis-1)


def zero(x):
    return [zero(y) for y in x] if isinstance(x, list) else 0


def blank(x, where, axis, value):
    if axis == 0:
        return [(zero(y) if value is None else value) if w else y
                for y, w in zip(x, where)]
    return [blank(y, where, axis-1, value) for y in x]


def tiled(rng, case, n, axes, out=(), count=(), chs=None, fill=(),
          one=False):
    """Ask for the case to be run with n elements along the given axes.

    axes, out: pairs of key and axis; count: keys holding the number of
    elements; chs: number of the entry of "chs" with the chunks, or a key
    holding them; fill: key, axis and value (None for zeros) that make an
    element contribute nothing; one: a single chunk."""
    c = case["in"]
    k = size(c[axes[0][0]], axes[0][1])
    n = max(n, k + 1)
    idx = list(range(k)) + [rng.randrange(k) for _ in range(n-k)]
    pad = [False]*n
    if fill:
        # each element once, the last place always taken
        at = sorted(rng.sample(range(n-1), k-1)) + [n-1]
        idx = [rng.randrange(k) for _ in range(n)]
        pad = [True]*n
        for i, j in enumerate(at):
            idx[j], pad[j] = i, False
    t = dict(idx=idx, axes=axes, out=list(out), count=list(count), chs="",
             ch=[], fill=list(fill), pad=pad)
    if chs is not None:
        ch = [n]
        if c.get("dask") and not one:
            cut = sorted(rng.sample(range(1, n), min(n-1, rng.choice(
                [1, 2, 5]))))
            ch = [b-a for a, b in zip([0]+cut, cut+[n])]
        t.update(chs=chs, ch=ch)
    case["tile"] = t
    return case


def execute(fn, case, mode):
    t = case.get("tile")
    if not t:
        return fn(case, mode)
    big = copy.deepcopy(case)
    c, idx = big["in"], t["idx"]
    for k, ax in t["axes"]:
        c[k] = take(c[k], idx, ax)
    for k, ax, value in t["fill"]:
        c[k] = blank(c[k], t["pad"], ax, value)
    for k in t["count"]:
        c[k] = [len(idx)] if isinstance(c[k], list) else len(idx)
    if isinstance(t["chs"], int):
        c["chs"][t["chs"]] = t["ch"]
    elif t["chs"]:
        c[t["chs"]] = t["ch"]
    o = fn(big, mode)
    o["rep"] = True
    k = max(idx) + 1
    for key, ax in t["out"]:
        if key not in o:
            continue
        if size(o[key], ax) != len(idx):
            o["rep"] = False
            continue
        full = o[key]
        o[key] = take(full, range(k), ax)
        o["rep"] = bool(o["rep"] and close(
            full, take(o[key], idx, ax), 2 + c.get("tol", 0)))
    return o


def spread(rng, cases, number, table, sizes=(33, 65, 130, 257)):
    """Adds tiled copies of random cases; table: fn to list of arguments of
    tiled, with "when" saying which cases they suit."""
    ok = {}
    for c in cases:
        if not c["in"].get("must") and "invalid" not in c["kind"] and \
                not c["kind"].startswith("bad"):
            ok.setdefault((c["in"].get("fn"), tuple(c["modes"])),
                          []).append(c)
    keys = sorted((k for k in ok if k[0] in table), key=str)
    new, skipped = [], 0
    while keys and len(new) < number:
        k = keys[(len(new) + skipped) % len(keys)]
        c = copy.deepcopy(rng.choice(ok[k]))
        t = rng.choice(table[k[0]])
        t = dict(t, **{f: [x for x in t.get(f, ()) if x[0] in c["in"]]
                       for f in ("axes", "fill")})
        if not t["axes"] or not t.pop("when", lambda x: True)(c["in"]):
            skipped += 1
            if skipped > 50*number:
                break
            continue
        c["kind"] = "long-" + c["kind"]
        c.pop("id", None)
        n = rng.choice(sizes)
        if "jit" in k[1] and rng.random() < 0.5:
            n *= 4
        new.append(tiled(rng, c, n, **t))
    cases.extend(new)
    return cases
