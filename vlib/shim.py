"""Run codex-africanus on the tools that are installed here.

The installed numba (0.59) no longer has ``generated_jit`` and the installed
numpy no longer has ``np.object``; half of the package cannot be imported
because of this.  The stand-ins below give those names their documented
meaning, so that the *unmodified* sources under /repo can be executed.

``interp`` mode (the default) runs every kernel as plain Python
(NUMBA_DISABLE_JIT=1): the generator function is called with the numba types
of the arguments exactly as numba did, and the implementation it returns is
executed by CPython.  ``jit`` mode compiles the same implementation with the
installed numba; it is used by the thorough tiers to replay the enumerated
cases against compiled code.

``install()`` must be called before numba or africanus are imported.
"""
import functools
import inspect
import os
import sys

MODE = None


def install(mode=None):
    global MODE
    mode = mode or os.environ.get("VERIF_MODE", "interp")
    if MODE is not None:
        return
    MODE = mode
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    sys.dont_write_bytecode = True
    if mode == "interp":
        os.environ["NUMBA_DISABLE_JIT"] = "1"
    import warnings
    warnings.filterwarnings("ignore")
    import numpy as np
    for name, val in (("object", object), ("float", float), ("bool", bool),
                      ("int", int), ("complex", complex), ("str", str)):
        if name not in np.__dict__:
            setattr(np, name, val)
    import numba
    if mode == "interp":
        _install_interp(numba)
    else:
        _install_jit(numba)
    repo = os.environ.get("VERIF_REPO", "/repo")
    if sys.path[0] != repo:
        sys.path.insert(0, repo)


class _DTypeArg(object):
    """ Stands for the numba type of a ``dtype`` argument """

    def __init__(self, dtype):
        import numpy as np
        self.dtype = np.dtype(dtype)
        self.name = "class(%s)" % self.dtype.name


def _type_of(value, numba):
    import numpy as np
    types = numba.types
    if value is None:
        return types.none
    if isinstance(value, (bool, np.bool_)):
        return types.boolean
    if isinstance(value, np.dtype) or (isinstance(value, type) and
                                       issubclass(value, np.generic)):
        return _DTypeArg(value)
    if isinstance(value, str):
        return types.unicode_type
    if isinstance(value, int):
        return types.literal(value)
    if isinstance(value, tuple) and not hasattr(value, "_fields"):
        elem = [_type_of(v, numba) for v in value]
        if any(isinstance(e, _DTypeArg) for e in elem):
            return tuple(elem)
        elem = [types.unliteral(e) for e in elem]
        return types.BaseTuple.from_types(elem)
    if isinstance(value, np.ndarray) and value.dtype == np.dtype(object):
        raise TypeError("object arrays are not supported by numba")
    return numba.typeof(value)


def _install_interp(numba):
    import numpy as np
    types = numba.types

    # let np.empty(..., dtype=<numba scalar type>) work as it does in numba
    def _np_dtype(self):
        return np.dtype(self.name)

    for cls in (types.Float, types.Complex, types.Integer, types.Boolean):
        if not isinstance(getattr(cls, "dtype", None), property):
            cls.dtype = property(_np_dtype)

    def generated_jit(function=None, **kw):
        def wrap(fn):
            sig = inspect.signature(fn)
            cache = {}

            @functools.wraps(fn)
            def call(*args, **kwargs):
                bound = sig.bind(*args, **kwargs)
                given = set(bound.arguments)
                bound.apply_defaults()
                targs = []
                for name, val in bound.arguments.items():
                    if name not in given:
                        targs.append(types.Omitted(val))
                    elif sig.parameters[name].kind == \
                            inspect.Parameter.VAR_POSITIONAL:
                        targs.extend(_type_of(v, numba) for v in val)
                    else:
                        targs.append(_type_of(val, numba))
                impl = fn(*targs)
                return impl(*args, **kwargs)
            call.py_func = fn
            call._verif_generator = fn
            return call
        if function is not None:
            return wrap(function)
        return wrap

    numba.generated_jit = generated_jit

    def overload(func, **okw):
        def decorator(generator):
            def dispatch(*args, **kwargs):
                sig = inspect.signature(func)
                bound = sig.bind(*args, **kwargs)
                given = set(bound.arguments)
                bound.apply_defaults()
                targs = {}
                for name, val in bound.arguments.items():
                    if isinstance(val, str):
                        targs[name] = types.literal(val)
                    elif name not in given:
                        targs[name] = types.Omitted(val)
                    else:
                        try:
                            targs[name] = _type_of(val, numba)
                        except Exception:
                            targs[name] = types.undefined
                impl = generator(**targs)
                return impl(*args, **kwargs)
            functools.update_wrapper(dispatch, func)
            glb = getattr(func, "__globals__", None)
            if glb is not None and glb.get(func.__name__) is func:
                glb[func.__name__] = dispatch
            return generator
        return decorator

    import numba.extending
    numba.extending.overload = overload

    # numba's prange is a range subclass whose constructor only takes ints,
    # compiled code also takes integral floats
    class tolerant_range(object):
        def __new__(cls, *args):
            return range(*(int(a) for a in args))
    _install_interp.tolerant_range = tolerant_range


def _install_jit(numba):
    from numba.extending import overload

    def generated_jit(function=None, **kw):
        def wrap(fn):
            sig = inspect.signature(fn)
            params = list(sig.parameters.values())

            def stub(*args):
                raise NotImplementedError
            # a stub with the same signature, which overload() fills in
            decl, call = [], []
            ns = {}
            for p in params:
                if p.kind == p.VAR_POSITIONAL:
                    decl.append("*" + p.name)
                    call.append("*" + p.name)
                elif p.default is p.empty:
                    decl.append(p.name)
                    call.append(p.name)
                else:
                    ns["_d_" + p.name] = p.default
                    decl.append("%s=_d_%s" % (p.name, p.name))
                    call.append(p.name)
            src = "def stub(%s):\n    raise NotImplementedError\n" % \
                ", ".join(decl)
            exec(src, ns)
            stub = ns["stub"]
            opts = {k: v for k, v in kw.items() if k not in ("nopython",
                                                             "cache")}
            overload(stub, jit_options=opts)(fn)
            ns2 = dict(ns, stub=stub)
            src = "def call(%s):\n    return stub(%s)\n" % (
                ", ".join(decl), ", ".join(call))
            exec(src, ns2)
            disp = numba.njit(**opts)(ns2["call"])

            # calls from other compiled code go through ``disp``
            disp.__name__ = fn.__name__
            disp.__doc__ = fn.__doc__
            return disp
        if function is not None:
            return wrap(function)
        return wrap

    numba.generated_jit = generated_jit
    # never cache on disk: the sources change under us
    real_njit, real_jit = numba.njit, numba.jit

    def _nocache(dec):
        @functools.wraps(dec)
        def inner(*args, **kw):
            kw.pop("cache", None)
            return dec(*args, **kw)
        return inner
    numba.njit = _nocache(real_njit)
    numba.jit = _nocache(real_jit)
