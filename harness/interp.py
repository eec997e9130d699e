"""Run numba-decorated code as plain Python.

Import this before africanus.  NUMBA_DISABLE_JIT turns jit/njit into the
identity; the two decorators it does not cover are emulated here:
generated_jit (absent from recent numba) and numba.extending.overload.
Both call the decorated *generator* with the numba types of the actual
arguments and then call the implementation it returns on the values.

Interpreted runs are only a fast way to explore many inputs: anything they
seem to get wrong is re-run compiled before it is reported.
"""
import inspect
import itertools
import os

os.environ["NUMBA_DISABLE_JIT"] = "1"

import numba  # noqa: E402
import numba.extending  # noqa: E402
from numba import types  # noqa: E402
from numba.np.numpy_support import as_dtype  # noqa: E402


def _ty(v, lit):
    if v is None:
        return types.none
    if lit and isinstance(v, (int, str)) and not isinstance(v, bool):
        return types.literal(v)
    try:
        return numba.typeof(v)
    except Exception:
        return types.pyobject


def _plain_dtypes(impl):
    """Numba scalar types captured by the implementation become dtypes."""
    for cell in getattr(impl, "__closure__", None) or ():
        try:
            v = cell.cell_contents
        except ValueError:
            continue
        if isinstance(v, types.Number):
            cell.cell_contents = as_dtype(v)


def _dispatch(generator, sig, args, kwargs):
    bound = sig.bind(*args, **kwargs)
    last = None
    for lit, omit in ((False, True), (True, True), (False, False)):
        targs = {}
        for n, p in sig.parameters.items():
            if n in bound.arguments:
                targs[n] = _ty(bound.arguments[n], lit)
            else:
                targs[n] = types.misc.Omitted(p.default) if omit \
                    else _ty(p.default, False)
        try:
            impl = generator(**targs)
        except Exception as e:  # noqa: B902
            last = e
            continue
        if impl is not None:
            _plain_dtypes(impl)
            return impl(*args, **kwargs)
    if last is not None:
        raise last
    raise TypeError("no implementation")


def generated_jit(*dargs, **options):
    def decorator(generator):
        sig = inspect.signature(generator)

        def wrapper(*args, **kwargs):
            return _dispatch(generator, sig, args, kwargs)

        wrapper.__name__ = generator.__name__
        wrapper.__doc__ = generator.__doc__
        wrapper.__module__ = generator.__module__
        wrapper.__wrapped__ = generator
        return wrapper

    if dargs and callable(dargs[0]):
        return decorator(dargs[0])
    return decorator


_count = itertools.count()
_real_overload = numba.extending.overload


def overload(func, *oargs, **okw):
    def decorator(generator):
        if not inspect.isfunction(func):
            return generator
        sig = inspect.signature(generator)
        tramp = "__interp_tramp_%d" % next(_count)

        def trampoline(*args, **kwargs):
            return _dispatch(generator, sig, args, kwargs)

        func.__globals__[tramp] = trampoline
        fsig = inspect.signature(func)
        params = list(fsig.parameters.values())
        if any(p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD) for p in params):
            src = "def f(*args, **kwargs):\n    return %s(*args, **kwargs)\n" \
                % tramp
        else:
            names = [p.name for p in params]
            src = "def f(%s):\n    return %s(%s)\n" % (
                ", ".join(names), tramp, ", ".join(names))
        ns = {}
        exec(src, func.__globals__, ns)
        defaults = func.__defaults__
        func.__code__ = ns["f"].__code__
        func.__defaults__ = defaults
        return generator

    return decorator


numba.generated_jit = generated_jit
numba.extending.overload = overload
