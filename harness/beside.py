"""Calls computed together with other calls.

A case of a dask form may name companions: cases that differ from it in one
input of the same shape.  The results of both are asked for in one
computation, as a user does who evaluates several calls at once, with arrays
named after their contents, so that tasks of different calls must have
different names.  A case of another form is called after, between and before
calls of its companions, which must neither change its result nor what it has
returned.
"""
import copy


class Lazy(BaseException):
    """Carries the arrays a call would have computed."""


def sig(x):
    if isinstance(x, list):
        return ("list", len(x), sig(x[0]) if x else None)
    if isinstance(x, dict):
        return ("dict",) + tuple((k, sig(x[k])) for k in sorted(x))
    return type(x).__name__


def beside(rng, cases, number, suits=None, only=None, kind="beside"):
    """Adds copies of cases (of dask forms, unless suits says which) to be
    computed beside similar ones, or between calls of similar ones if kind is
    "history"; only: the inputs in which those may differ."""
    skip = {"fn", "dask", "must", "seed", "twice", "tol", "S", "chs", "lay",
            "order"}

    def fits(k, v):
        return k not in skip and (only is None or k in only) and not (
            k.startswith("has") or k.endswith("ch") or k.endswith("dt") or
            k.startswith("n") and isinstance(v, int))
    ok = [c for c in cases if (suits or (lambda x: x.get("dask")))(c["in"])
          and "interp" in c["modes"] and not c["in"].get("must") and
          not c.get("tile") and "invalid" not in c["kind"] and
          not c["kind"].startswith("bad")]
    if not ok:
        return cases
    sigs, fns = {}, {}
    for c in ok:
        fns.setdefault(str(c["in"].get("fn")), []).append(c)
        for k, v in c["in"].items():
            sigs.setdefault((k, sig(v)), []).append(v)
    names = sorted(fns)
    new = []
    for i in range(number):
        c = copy.deepcopy(rng.choice(fns[names[i % len(names)]]))
        keys = [k for k in sorted(c["in"]) if fits(k, c["in"][k])]
        rng.shuffle(keys)
        mates = []
        for k in keys:
            have = sigs[(k, sig(c["in"][k]))]
            for v in [rng.choice(have) for _ in range(8)]:
                if v != c["in"][k] and len(mates) < 10:
                    mates.append(copy.deepcopy(dict(c["in"], **{k: v})))
                    break
        c.update(modes=["interp"], kind=kind + "-" + c["kind"], mates=mates)
        c.pop("id", None)
        new.append(c)
    cases.extend(new)
    return cases


def history(fn, case, mode):
    """The case after, between and before calls of its companions."""
    import enc

    def others():
        for m in case["mates"]:
            try:
                fn(dict(case, **{"in": m, "mates": []}), mode)
            except Exception:
                pass
    others()
    enc.kept = []
    first = fn(case, mode)
    # as the whole call leaves them
    kept, enc.kept = [(a, a.copy()) for a, _ in enc.kept], None
    others()
    ok = all(enc.same([b], [a]) for a, b in kept)
    again = fn(case, mode)
    # left to the specification to judge
    res = first if first == again else again
    if isinstance(res, dict):
        res["rep"] = bool(ok and res.get("rep", True))
    return res


def execute(fn, case, mode):
    if case["kind"].startswith("history"):
        return history(fn, case, mode)
    import dask.array as da
    import sched
    real = da.from_array

    def from_array(x, chunks="auto", name=None, **kw):
        return real(x, chunks=chunks, name=name or None, **kw)
    da.from_array = from_array
    sched.sharing = True
    try:
        alone = fn(case, mode)
        for m in case["mates"]:
            sched.mode = "lazy"
            try:
                fn(dict(case, **{"in": m, "mates": []}), mode)
            except Lazy as e:
                lazy = list(e.args[0])
            except Exception:  # not a valid call
                continue
            finally:
                sched.mode = ""
            try:
                sched.compute(lazy, 1)
            except Exception:
                continue
            sched.extra = lazy
            both = fn(case, mode)
            sched.extra = []
            # left to the specification to judge
            if both != alone:
                return both
        return alone
    finally:
        sched.mode, sched.extra, sched.sharing = "", [], False
        da.from_array = real
