"""Controlled dask scheduler: execute a graph in a chosen topological order.

``compute_in_order(coll, policy)`` runs the graph of a dask array with one
thread, picking at every step one of the ready tasks according to ``policy``:
an integer sequence of choices (replayed), or one of "first", "last".
``all_orders`` enumerates the choices depth first up to a cap and reports
whether the enumeration was complete.
"""
import dask
from dask.core import get_dependencies, istask
from dask.optimization import cull


def _execute(arg, cache):
    if isinstance(arg, list):
        return [_execute(a, cache) for a in arg]
    if istask(arg):
        fn, args = arg[0], arg[1:]
        return fn(*[_execute(a, cache) for a in args])
    try:
        if arg in cache:
            return cache[arg]
    except TypeError:
        pass
    return arg


class Order(object):
    """ a get() function for dask; choices are taken from ``prefix`` """

    def __init__(self, prefix=(), default="first", observer=None):
        self.prefix = list(prefix)
        self.default = default
        self.points = []        # number of ready tasks at every step
        self.choices = []
        self.trace = []
        self.observer = observer

    def get(self, dsk, keys, **kw):
        dsk = dict(dsk)
        flat = _flatten(keys)
        dsk, _ = cull(dsk, flat)
        deps = {k: set(get_dependencies(dsk, k)) for k in dsk}
        done, cache = set(), {}
        remaining = sorted(dsk, key=str)
        step = 0
        while remaining:
            ready = [k for k in remaining if deps[k] <= done]
            if not ready:
                raise RuntimeError("cyclic or incomplete graph")
            if step < len(self.prefix):
                c = self.prefix[step]
                if c >= len(ready):
                    raise RuntimeError("replay diverged")
            else:
                c = 0 if self.default == "first" else len(ready) - 1
            self.points.append(len(ready))
            self.choices.append(c)
            k = ready[c]
            cache[k] = _execute(dsk[k], cache)
            self.trace.append(k)
            done.add(k)
            remaining.remove(k)
            step += 1
        return _gather(keys, cache)


def _flatten(keys):
    if isinstance(keys, list):
        out = []
        for k in keys:
            out.extend(_flatten(k))
        return out
    return [keys]


def _gather(keys, cache):
    if isinstance(keys, list):
        return tuple(_gather(k, cache) for k in keys) if False else \
            [_gather(k, cache) for k in keys]
    return cache[keys]


def compute(coll, default="first", prefix=(), optimize=True):
    """ -> (results, order) """
    order = Order(prefix, default)
    single = not isinstance(coll, (tuple, list))
    colls = (coll,) if single else tuple(coll)
    res = dask.compute(*colls, scheduler=order.get,
                       optimize_graph=optimize)
    return (res[0] if single else res), order


def all_orders(coll, cap, optimize=True):
    """ yields (result, order) for every topological order, depth first.

    The last yielded element is (None, complete?) """
    stack = [[]]
    n = 0
    while stack:
        prefix = stack.pop()
        if n >= cap:
            yield None, False
            return
        res, order = compute(coll, prefix=prefix, optimize=optimize)
        n += 1
        yield res, order
        for i in range(len(order.points) - 1, len(prefix) - 1, -1):
            for alt in range(1, order.points[i]):
                stack.append(order.choices[:i] + [alt])
    yield None, True
