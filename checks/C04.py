"""C04: progress bar under every interleaving of callbacks and reporter."""
import itertools
import re
import sys
import time

import numpy as np

import csched
csched.install()

from core import Group, Violation, check, state   # noqa: E402

import dask                                        # noqa: E402
import dask.array as da                            # noqa: E402
from dask.local import get_sync                    # noqa: E402
from africanus.util.dask_util import (EstimatingProgressBar,   # noqa: E402
                                      TaskData, format_time, key_bin)

FILES = (csched.REPO + "/africanus/util/dask_util.py",)
ASSUMPTIONS = [
    "virtual clock; a waiting reporter may wake at any scheduling point",
    "scheduling points are source lines of dask_util.py and synchronisation "
    "operations, with a preemption bound",
    "a report is explained by some prefix of the completed tasks"]


class Boom(Exception):
    pass


# --- reference formatting, from the documentation of the units --------------
def ref_format(t):
    t = int(t)
    for unit, sub, n, m in (("w", "d", 604800, 86400), ("d", "h", 86400, 3600),
                            ("h", "m", 3600, 60), ("m", "s", 60, 1)):
        if t >= n:
            return "%2d%s%2d%s" % (t // n, unit, t % n // m, sub)
    return "%5ds" % t


MSG = re.compile(r"^\r\[(.*)\] \| (-?\d+)% Complete \(Estimate\) \| "
                 r"(.{1,}) / ~(.{1,})$", re.S)


class Out(object):
    """ the stream handed to the bar """

    def __init__(self, world, fail=None, flush=None):
        self.world = world
        self.failflush = flush
        self.buf = ""
        self.closed = False
        self.fail = fail
        self.n = 0

    def write(self, text):
        self.n += 1
        self.world.writes.append(
            (text, self.world.comp, len(self.world.done),
             csched.RT.clock - self.world.t0))
        if self.fail is not None and self.n >= self.fail:
            raise ValueError("I/O operation on closed file")
        return len(text)

    def flush(self):
        if self.failflush is not None and self.n >= self.failflush:
            raise ValueError("I/O operation on closed file")


class World(object):
    def __init__(self):
        self.writes = []
        self.comp = None          # index of the running computation
        self.done = []            # (bin, duration) finished in it
        self.t0 = 0.0
        self.results = []
        self.took = []            # virtual duration of each computation


def snapshots(done):
    """ per prefix of the completed tasks: counts and times per bin """
    out = []
    for k in range(len(done) + 1):
        d = {}
        for b, t in done[:k]:
            n, s = d.get(b, (0, 0.0))
            d[b] = (n + 1, s + t)
        out.append(d)
    return out


def explains(snap, total, e, width, bar, pct, etxt, ttxt):
    est = sum(s / n * total[b] for b, (n, s) in snap.items())
    tg = sum(s for n, s in snap.values())
    if ref_format(e) != etxt:
        return False
    if tg > 0:
        est = est * e / tg
    else:
        est = 0.0
    if est == 0.0:
        okt = ttxt == "???"
    else:
        okt = ttxt in ("{0}".format(_fmt(est)),)
    if not okt:
        return False
    if e < 10:
        return pct == 0 and bar == (" estimate improves over time"[:width]
                                    .ljust(width))
    frac = e / est if est > 0 else 0.0
    if pct not in (int(100 * frac), int(100 * frac + 1e-9),
                   int(100 * frac - 1e-9)):
        return False
    return bar in tuple(("#" * int(width * f))[:width].ljust(width)
                        for f in (frac, frac + 1e-12, frac - 1e-12))


def _fmt(t):
    m, s = divmod(t, 60)
    h, m = divmod(m, 60)
    d, h = divmod(h, 24)
    w, d = divmod(d, 7)
    parts = [(w, "w"), (d, "d"), (h, "h"), (m, "m"), (s, "s")]
    for i in range(4):
        if parts[i][0]:
            return "%2.0f%s%2.0f%s" % (parts[i] + parts[i + 1])
    return "%5.0fs" % s


def graph(tasks, world):
    """ tasks: tuple of (bin, duration, deps, raises) """
    dsk = {}
    names = [("%s" % b, i) for i, (b, _, _, _) in enumerate(tasks)]

    def work(i, b, dur, boom, *deps):
        time.sleep(dur)
        if boom:
            raise Boom(i)
        world.done.append((b, dur))
        return 10 * (i + 1) + sum(deps)
    for i, (b, dur, deps, boom) in enumerate(tasks):
        dsk[names[i]] = (work, i, b, dur, boom) + tuple(names[j]
                                                        for j in deps)
    return dsk, names


def value(tasks):
    v = []
    for i, (b, dur, deps, boom) in enumerate(tasks):
        v.append(10 * (i + 1) + sum(v[j] for j in deps))
    return v


def scenario(comps, opts, fresh):
    """ -> (body, judge) """
    opts = dict(opts)
    fail = opts.pop("fail", None)
    flush = opts.pop("flush", None)
    sink = opts.pop("sink", "object")
    box = {}

    def body(rt):
        w = World()
        box["w"] = w

        def main():
            out = Out(w, fail, flush)

            def make():
                if sink == "object":
                    return EstimatingProgressBar(out=out, **opts)
                if sink == "none":
                    return EstimatingProgressBar(out=None, **opts)
                return EstimatingProgressBar(**opts)
            stdout = sys.stdout
            if sink != "object":
                sys.stdout = out
            try:
                bar = make()
            finally:
                sys.stdout = stdout
            for c, tasks in enumerate(comps):
                if fresh and c:
                    bar = make()
                dsk, names = graph(tasks, w)
                w.comp, w.done, w.t0 = c, [], rt.clock
                try:
                    with bar:
                        r = get_sync(dsk, names)
                    w.results.append(list(r))
                except Boom as e:
                    w.results.append(("boom", e.args))
                except BaseException as e:      # noqa
                    if isinstance(e, csched.Abort):
                        raise
                    w.results.append(("other", repr(e)))
                w.took.append(rt.clock - w.t0)
                w.comp = None
            # anything after this comes too late
            time.sleep(100)
        rt.spawn("main", main)

    def judge(rt):
        w = box["w"]
        sch = [c for c, _ in rt.choices]
        check(rt.aborting is None, "%s; schedule %s", rt.aborting, sch)
        for t in rt.threads:
            check(t.exc is None, "thread %s died with %r; schedule %s",
                  t.name, t.exc, sch)
        for c, tasks in enumerate(comps):
            booms = [i for i, t in enumerate(tasks) if t[3]]
            got = w.results[c]
            if booms:
                check(got[0] == "boom", "computation %d: expected its own "
                      "exception, got %s; schedule %s", c, got, sch)
            else:
                check(got == value(tasks), "computation %d: result %s, "
                      "unobserved %s; schedule %s", c, got, value(tasks), sch)
            # the sequential scheduler stops at the first failure
            need = sum(d for _, d in order_done(tasks)) + (
                tasks[booms[0]][1] if booms else 0)
            check(w.took[c] == need, "computation %d took %gs, %gs "
                  "unobserved; schedule %s", c, w.took[c], need, sch)
            n = sum(1 for t in w.writes if t[1] == c)
            dt, mini = opts.get("dt", 1.0), opts.get("minimum", 0)
            least = int((need - max(mini, 0)) // dt) - 1
            if sink == "none":
                check(n == 0, "reports on a bar without output")
            else:
                check(n >= least, "computation %d of %gs: %d reports, one "
                      "every %gs requested; schedule %s", c, need, n, dt,
                      sch)
        last = {}
        for text, comp, ndone, since in w.writes:
            if not text.startswith("\r["):
                continue
            check(comp is not None, "%r written after the computation "
                  "returned; schedule %s", text, sch)
            m = MSG.match(text)
            check(m is not None, "unreadable report %r; schedule %s", text,
                  sch)
            bar, pct, etxt, ttxt = m.groups()
            pct = int(pct)
            check(0 <= pct <= 100, "%d%% reported; schedule %s", pct, sch)
            total = {}
            for b, _, _, _ in comps[comp]:
                total[b] = total.get(b, 0) + 1
            snaps = snapshots(order_done(comps[comp])[:ndone])
            k0, e0 = last.get(comp, (0, 0))
            hit = None
            width = opts.get("width", 42)
            mini = opts.get("minimum", 0)
            for k in range(k0, len(snaps)):
                for e in range(e0, int(since) + 1):
                    if e <= mini:
                        continue
                    if explains(snaps[k], total, e, width, bar, pct, etxt,
                                ttxt):
                        hit = (k, e)
                        break
                if hit:
                    break
            check(hit is not None, "report %r is explained by no state of "
                  "the computation between %d and %d completed tasks, %ds "
                  "after its start; schedule %s", text, k0, ndone,
                  since, sch)
            last[comp] = hit
        return len(w.writes)
    return body, judge


_order = {}


def order_done(tasks):
    """ (bin, duration) in execution order, from an unobserved run """
    if tasks not in _order:
        log = []
        names = [("%s" % b, i) for i, (b, _, _, _) in enumerate(tasks)]

        def work(i, b, dur, boom, *deps):
            if boom:
                raise Boom(i)
            log.append((b, dur))
            return 0
        dsk = {names[i]: (work, i, b, dur, boom) + tuple(names[j]
                                                         for j in deps)
               for i, (b, dur, deps, boom) in enumerate(tasks)}
        try:
            get_sync(dsk, names)
        except Boom:
            pass
        _order[tasks] = log
    return _order[tasks]


TASKS = {
    "one": (("a", 16, (), False),),
    "two": (("a", 16, (), False), ("b", 31, (0,), False)),
    "same": (("a", 11, (), False), ("a", 37, (0,), False)),
    "three": (("a", 12, (), False), ("b", 17, (0,), False),
              ("a", 41, (1,), False)),
    "quick": (("a", 3, (), False), ("b", 4, (0,), False)),
    "boom": (("a", 14, (), False), ("b", 9, (0,), True)),
    "boom1": (("a", 7, (), True),),
    "zero": (("a", 0, (), False), ("b", 0, (0,), False)),
    "zero2": (("a", 0, (), False), ("b", 13, (0,), False)),
    "long": (("a", 4000, (), False), ("b", 90000, (0,), False),
             ("a", 700000, (1,), False)),
    "empty": (),
}


def interleave(p):
    names, opts, fresh, bound, opcodes, root, cap = p
    comps = tuple(TASKS[n] for n in names)
    body, judge = scenario(comps, opts, fresh)
    seen = set()

    def j(rt):
        seen.add(judge(rt))
    n, complete = csched.explore(body, j, bound, FILES, opcodes, cap,
                                 root=root)
    state(n)
    return (n if n < 50 else "many", complete, len(seen))


def split(names, opts, fresh, bound, opcodes=False, cap=None):
    comps = tuple(TASKS[n] for n in names)
    body, judge = scenario(comps, opts, fresh)
    rt = csched.execute(body, (), bound, FILES, opcodes)
    out = [(names, opts, fresh, 0, opcodes, (), cap)]
    ch = rt.choices
    for i in range(len(ch)):
        for alt in range(ch[i][0] + 1, ch[i][1]):
            out.append((names, opts, fresh, bound, opcodes,
                        tuple(c for c, _ in ch[:i]) + (alt,), cap))
    return out


def observed(p):
    """ real arrays, real threads, real scheduler: results unchanged """
    kind, shape, chunks, sched, nested, kw = p
    import io
    kw = dict(kw)

    def build():
        x = da.from_array(np.arange(np.prod(shape), dtype=np.float64)
                          .reshape(shape), chunks=chunks)
        if kind == "sum":
            return (x + 1).sum()
        if kind == "map":
            return x.map_blocks(lambda b: b * 2 + 1)
        if kind == "err":
            def bad(b):
                raise Boom("x")
            return x.map_blocks(bad, dtype=x.dtype)
        return x.dot(x.T)

    def outcome(fn):
        try:
            return ("ok", np.asarray(fn()).tolist())
        except Boom:
            return ("boom",)
    plain = outcome(lambda: build().compute(scheduler="sync"))
    out = io.StringIO()
    import threading
    before = threading.active_count()
    bar = EstimatingProgressBar(out=out, **kw)
    for rep in range(2):
        with bar:
            got = outcome(lambda: build().compute(scheduler=sched))
            n = len(out.getvalue())
            if nested:
                got2 = outcome(lambda: build().compute(scheduler=sched))
                check(got2 == plain, "second computation under the same bar "
                      "differs")
        check(got == plain, "observed result %s, unobserved %s", got, plain)
    return kind, got[0]


def formats(p):
    t = p
    from core import call
    got = call(format_time, t)
    check(got == ref_format(t), "format_time(%d) is %r, expected %r", t, got,
          ref_format(t))
    check(got == call(format_time, float(t)), "format_time differs for a "
          "float")
    check(got == call(format_time, t + 0.25), "format_time(%r) is %r, "
          "format_time(%r) is %r", t, got, t + 0.25,
          call(format_time, t + 0.25))
    return got[2:3] + got[-1:]


def records(p):
    """ per-task counters add up; names of the same tasks share a counter """
    from core import call
    a, b, names = p
    want = tuple(x + y for x, y in zip(a, b))

    def fields(t):
        return t.completed, t.total, t.time_sum
    x, y = TaskData(*a), TaskData(*b)
    z = call(lambda: x + y)
    check(fields(z) == want, "%s + %s is %s, expected %s", a, b, fields(z),
          want)
    check(fields(x) == a and fields(y) == b, "adding modified an operand")
    keep = x
    x += y
    check(fields(x) == want and fields(y) == b, "%s += %s is %s, expected "
          "%s", a, b, fields(x), want)
    check(x is keep, "+= made a new counter")
    bins = {}
    for n in names:
        got = {call(key_bin, k) for k in (n, (n, 0), (n, 3, 4), n.encode(),
                                          (n.encode(), 1))}
        check(len(got) == 1, "tasks named %r are counted as %r", n, got)
        bins.setdefault(got.pop(), []).append(n)
    check(all(len(v) == 1 for v in bins.values()), "different tasks share a "
          "counter: %r", bins)
    return len(bins)


def groups(tier):
    big = tier == "thorough"
    dt5 = (("dt", 5),)
    sc = [
        (("one",), dt5, False, 3 if big else 2),
        (("two",), dt5, False, 2),
        (("same",), (("dt", 20), ("width", 8)), False, 2),
        (("boom",), dt5, False, 2),
        (("boom1", "one"), (("dt", 6),), False, 2),
        (("one", "one"), (("dt", 9), ("width", 10)), False, 2),
        (("quick", "two"), (("dt", 7),), True, 2),
        (("zero",), (("dt", 1), ("minimum", -1)), False, 2),
        (("zero2",), (("dt", 2),), False, 2),
        (("two",), (("dt", 5), ("minimum", 20)), False, 2),
        (("two",), (("dt", 5), ("fail", 2)), False, 1),
        (("two",), (("dt", 5), ("flush", 2)), False, 1),
        (("two",), (("dt", 9), ("sink", "stdout")), False, 1),
        (("two",), (("dt", 9), ("sink", "none")), False, 1),
        (("three",), (("dt", 9),), False, 1),
        (("three", "two", "one"), (("dt", 13),), False, 1),
        (("long",), (("dt", 60000),), False, 1),
        (("boom", "boom1", "two"), (("dt", 8),), False, 1),
        (("empty", "one"), (("dt", 8),), False, 1),
    ]
    if big:
        sc += [(("two", "same"), dt5, False, 2), (("three",), dt5, False, 2),
               (("two", "boom", "one"), (("dt", 9),), False, 2),
               (("one", "one"), dt5, False, 3)]
    cases = []
    for names, opts, fresh, bound in sc:
        cases += split(names, opts, fresh, bound, cap=None if big else 4000)
    ops = []
    for names, opts, fresh, bound in (
            (("one",), dt5, False, 1), (("two",), dt5, False, 1),
            (("boom1", "one"), dt5, False, 1),
            (("one", "one"), dt5, False, 1)) + (
                ((("one",), dt5, False, 2),) if big else ()):
        ops += split(names, opts, fresh, bound, True)
    obs = [(k, s, c, sch, nest, kw)
           for k in ("sum", "map", "err", "dot")
           for s, c in (((4, 4), 2), ((6, 6), (3, 6)), ((1, 1), 1))
           for sch in ("sync", "threads")
           for nest in (False, True)
           for kw in ((("dt", 0.001),), (("dt", 0.0005), ("minimum", 0.002)),
                      (("dt", 0.01), ("width", 3)))]
    secs = sorted(set(
        list(range(0, 200)) +
        [a * u + b for u in (60, 3600, 86400, 604800)
         for a in range(0, 12) for b in (-1, 0, 1, 59, 60, 61, 3599, 3600,
                                         86399, 86400) if a * u + b >= 0]))
    return [
        Group("interleavings", cases, interleave,
              "every schedule of the computing and the reporting thread with "
              "at most 2 preemptions (a few scenarios 1 or 3), preemption "
              "at every source line and synchronisation step; one or more "
              "computations under one bar, failing tasks, zero-time tasks",
              "%d scenarios, <= 3 tasks, <= 3 computations" % len(sc)),
        Group("bytecode", ops, interleave,
              "the same at bytecode granularity", "1 preemption"),
        Group("observed", obs, observed,
              "real dask arrays and schedulers", "listed"),
        Group("records", [(a, b, ("sum-0f3a", "add-1", "x", "a b", "é"))
                          for a in itertools.product((0, 1, 2, 7),
                                                     (0, 2, 7), (0.0, 1.5))
                          for b in itertools.product((0, 1, 2, 7),
                                                     (0, 2, 7), (0.0, 0.5))],
              records, "adding counters; task names in every key form",
              "576 pairs"),
        Group("durations", secs, formats, "time formatting against a "
              "reference", "around every unit boundary"),
    ]
