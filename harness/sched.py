"""A dask scheduler that executes tasks one at a time in a seeded random
topological order, optionally executing every task twice (as a distributed
scheduler that lost a worker would) and keeping the second result."""
import random

import dask
from dask.core import flatten, get_dependencies, _execute_task
from dask.local import nested_get
from dask.utils import ensure_dict


def make_get(seed, twice=False, log=None):
    rng = random.Random(seed)

    def get(dsk, keys, **kw):
        dsk = dict(ensure_dict(dsk))
        deps = {k: set(get_dependencies(dsk, k)) for k in dsk}
        want, stack = set(), list(flatten([keys]))
        while stack:
            k = stack.pop()
            if k not in want:
                want.add(k)
                stack.extend(deps[k])
        left = {k: {d for d in deps[k]} for k in want}
        rdeps = {}
        for k in want:
            for d in deps[k]:
                rdeps.setdefault(d, []).append(k)
        ready = sorted((k for k in want if not left[k]), key=str)
        cache = {}
        while ready:
            k = ready.pop(rng.randrange(len(ready)))
            v = _execute_task(dsk[k], cache)
            if twice:
                v = _execute_task(dsk[k], cache)
            cache[k] = v
            if log is not None:
                log.append(k)
            new = []
            for r in rdeps.get(k, ()):
                left[r].discard(k)
                if not left[r]:
                    new.append(r)
            ready.extend(sorted(new, key=str))
        return nested_get(keys, cache)

    return get


mode = ""
sharing = False
extra = []      # arrays of other calls to be computed along


def compute(arrays, seed, twice=False, optimize=True, log=None):
    if mode == "lazy":
        from beside import Lazy
        raise Lazy(arrays)
    # of tasks of the same name, the first or the last call's is kept
    r = dask.compute(*extra, *arrays, *extra, optimize_graph=optimize,
                     scheduler=make_get(seed, twice, log))
    return r[len(extra):len(extra)+len(arrays)]


def shared(key, make, cache={}):
    """An object several calls computed together have in common."""
    if not sharing:
        return make()
    if key not in cache:
        cache[key] = make()
    return cache[key]
