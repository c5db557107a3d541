"""C07: memoisation and singletons under all interleavings and histories."""
import itertools

import csched
csched.install()

from core import Group, call, check, raises, state     # noqa: E402
from africanus.util.code import SingletonMixin, memoize_on_key  # noqa: E402

FILES = (csched.REPO + "/africanus/util/code.py",)
ASSUMPTIONS = ["scheduling points: lines (or bytecodes) of util/code.py, "
               "synchronisation operations and the middle of a builder",
               "a builder does not call back into its own cache"]


class Boom(Exception):
    pass


class Thing(object):
    def __init__(self, key):
        self.key = key


class Empty(Thing):
    def __len__(self):
        return 0


def make(kind, key):
    if kind == "none":
        return None
    if kind == "falsy":
        return Empty(key)
    return Thing(key)


def memo_world(progs, kind, fails, keyerr=False):
    """ progs: per thread a tuple of keys; fails: key -> number of builder
    calls which raise first """
    box = {}

    def body(rt):
        log = {"built": [], "got": [], "active": [], "overlap": [],
               "boom": []}
        box["log"] = log
        left = dict(fails)

        def builder(key, extra=None):
            tid = rt.me().tid
            log["active"].append(key)
            if log["active"].count(key) > 1:
                log["overlap"].append(key)
            rt.point()
            if left.get(key, 0) > 0:
                left[key] -= 1
                log["active"].remove(key)
                raise (KeyError(key) if keyerr else Boom(key))
            v = make(kind, key)
            log["built"].append((tid, key, v))
            log["active"].remove(key)
            return v
        fn = memoize_on_key(lambda key, extra=None: key)(builder)

        def prog(t, keys):
            for n, k in enumerate(keys):
                try:
                    v = fn(k, extra=(t, n))
                except (Boom, KeyError) as e:
                    log["boom"].append((t, k, e))
                    continue
                log["got"].append((t, k, v))
        for t, keys in enumerate(progs):
            rt.spawn("t%d" % t, lambda t=t, keys=keys: prog(t, keys))

    def judge(rt):
        log = box["log"]
        sch = [c for c, _ in rt.choices]
        check(rt.aborting is None, "%s; schedule %s", rt.aborting, sch)
        for t in rt.threads:
            check(t.exc is None, "thread %s died with %r; schedule %s",
                  t.name, t.exc, sch)
        for k in set(k for p in progs for k in p):
            built = [v for _, kk, v in log["built"] if kk == k]
            got = [v for _, kk, v in log["got"] if kk == k]
            check(len(built) <= 1, "key %r built %d times; schedule %s", k,
                  len(built), sch)
            check(k not in log["overlap"], "two builds of key %r overlap; "
                  "schedule %s", k, sch)
            check(all(g is built[0] for g in got), "key %r: callers got "
                  "different objects; schedule %s", k, sch)
            if kind != "none":
                check(all(g.key == k for g in got), "a caller of key %r got "
                      "the object of another key; schedule %s", k, sch)
            calls = sum(p.count(k) for p in progs)
            nboom = len([1 for _, kk, _ in log["boom"] if kk == k])
            check(len(got) + nboom == calls, "a call was lost")
            check(nboom == min(fails_of(fails, k), calls), "key %r: builder "
                  "raised for %d callers, %d callers saw it; schedule %s", k,
                  min(fails_of(fails, k), calls), nboom, sch)
        return len(log["built"])
    return body, judge


def fails_of(fails, k):
    return dict(fails).get(k, 0)


def memo(p):
    progs, kind, fails, keyerr, bound, opc, cap = p
    body, judge = memo_world(progs, kind, dict(fails), keyerr)
    seen = set()
    n, complete = csched.explore(body, lambda rt: seen.add(judge(rt)), bound,
                                 FILES, opc, cap)
    state(n)
    return complete, tuple(sorted(seen)), n if n < 100 else 100


# --- singletons --------------------------------------------------------------
def classes(rt, log, fail, kind):
    def init(self):
        if rt is not None:
            rt.point()
        n = type(self).__name__
        if fail.get(n, 0) > 0:
            fail[n] -= 1
            raise Boom(n)
        log.append((n, self))

    class A(SingletonMixin):
        def __init__(self):
            init(self)

    class B(A):
        pass

    class C(SingletonMixin):
        def __init__(self):
            # needs another singleton to be built
            if kind == "nested":
                self.dep = A.instance()
            init(self)

    class D(B, C):
        def __init__(self):
            init(self)

    if kind == "falsy":
        A.__len__ = lambda self: 0
        C.__bool__ = lambda self: False
    if kind == "eq":
        A.__eq__ = lambda self, o: True
        A.__hash__ = lambda self: 1
    return {"A": A, "B": B, "C": C, "D": D}


def single_judge(K, log, got, sch):
    for n in K:
        made = [o for m, o in log if m == n]
        have = [o for m, o in got if m == n]
        check(len(made) <= 1, "%d instances of %s were made; schedule %s",
              len(made), n, sch)
        check(all(type(o) is K[n] for o in have), "%s.instance() returned "
              "an instance of %s; schedule %s", n,
              [type(o).__name__ for o in have], sch)
        check(all(o is made[0] for o in have), "%s.instance() returned "
              "different objects; schedule %s", n, sch)


def singles(p):
    progs, kind, fail, bound, opc, cap = p
    box = {}

    def body(rt):
        log, got, boom = [], [], []
        K = classes(rt, log, dict(fail), kind)
        box.update(log=log, got=got, K=K, boom=boom)

        def prog(names):
            for n in names:
                try:
                    got.append((n, K[n].instance()))
                except Boom:
                    boom.append(n)
        for names in progs:
            rt.spawn("t", lambda names=names: prog(names))

    def judge(rt):
        sch = [c for c, _ in rt.choices]
        check(rt.aborting is None, "%s; schedule %s", rt.aborting, sch)
        for t in rt.threads:
            check(t.exc is None, "thread died with %r; schedule %s", t.exc,
                  sch)
        single_judge(box["K"], box["log"], box["got"], sch)
        ncall = sum(len(x) for x in progs)
        check(len(box["got"]) + len(box["boom"]) == ncall, "lost call")
        if kind != "nested":
            for n, k in fail:
                calls = sum(x.count(n) for x in progs)
                check(box["boom"].count(n) == min(k, calls), "constructor "
                      "of %s failed %d times, %d callers saw it; schedule "
                      "%s", n, k, box["boom"].count(n), sch)
    n, complete = csched.explore(body, judge, bound, FILES, opc, cap)
    state(n)
    return complete, n if n < 100 else 100


def single_seq(p):
    seq, kind, fail = p
    log, got, left = [], [], dict(fail)
    K = classes(None, log, left, kind)
    for i, n in enumerate(seq):
        try:
            got.append((n, call(K[n].instance)))
        except Boom:
            pass
        single_judge(K, log, got, "sequence %s" % (seq[:i + 1],))
    return len(log)


def memo_seq(p):
    """ two memoised functions, a history of calls """
    seq, kind = p
    built = []
    fail = {}

    def key(x, y=0, *rest, **kw):
        return (x, y)

    def b1(x, y=0, *rest, **kw):
        """ doc of b1 """
        if fail.get("f"):
            fail["f"] = 0
            raise Boom("f")
        v = make(kind, ("f", x, y))
        built.append(("f", (x, y), v))
        return v

    def b2(x, y=0):
        v = make(kind, ("g", x, y))
        built.append(("g", (x, y), v))
        return v
    f, g = memoize_on_key(key)(b1), memoize_on_key(key)(b2)
    check(f.__name__ == "b1" and f.__doc__ == b1.__doc__, "metadata of the "
          "builder is lost")
    have = {}
    for op in seq:
        if op == "fail":
            fail["f"] = 1
            continue
        fn = {"f": f, "g": g}[op[0]]
        args = {"-1": (-1,), "-2": (-2,), "-21": (-2, -1), "-12": (-1, -2),
                "0": (0,), "": ("",), "1": (1,), "2": (2,), "12": (1, 2), "k": (1,),
                "x": (1, 0, 9)}[op[1:]]
        kw = {"y": 2} if op[1:] == "k" else {}
        kk = (args[0], kw.get("y", args[1] if len(args) > 1 else 0))
        if op[0] == "g" and len(args) > 2:
            args = args[:2]
        before = len(built)
        try:
            v = call(fn, *args, **kw)
        except Boom:
            check((op[0], kk) not in have, "%s: a cached call raised", seq)
            continue
        new = len(built) - before
        if (op[0], kk) in have:
            check(new == 0 and v is have[(op[0], kk)][0], "history %s: %s "
                  "was built again", seq, op)
        else:
            check(new == 1 and v is built[-1][2], "history %s: %s built %d "
                  "times", seq, op, new)
            have[(op[0], kk)] = (v,)
    return len(have)


def groups(tier):
    big = tier == "thorough"
    P2 = [(("a",), ("a",)), (("a",), ("b",)), (("a", "b"), ("b", "a")),
          (("a", "a"), ("a",)), (("a", "b"), ("a", "b"))]
    P3 = [(("a",), ("a",), ("a",)), (("a",), ("b",), ("a",)),
          (("a", "b"), ("b",), ("a",))]
    mm = []
    for progs in P2 + P3:
        for kind in ("thing", "none", "falsy"):
            for fails, ke in (((), False), ((("a", 1),), False),
                              ((("a", 2),), True)):
                b = 3 if len(progs) == 2 or big else 2
                mm.append((progs, kind, fails, ke, b + (1 if big else 0),
                           False, 60000 if big else 4000))
    for progs in P2[:3] + P3[:1]:
        mm.append((progs, "falsy", (("a", 1),), False, 3 if big else 2, True,
                   60000 if big else 4000))
    S2 = [(("A",), ("A",)), (("A",), ("B",)), (("B",), ("A",)),
          (("A", "B"), ("B", "A")), (("C",), ("A",)), (("A",), ("C",)),
          (("D",), ("A",)), (("C",), ("D", "B"))]
    S3 = [(("A",), ("A",), ("A",)), (("A",), ("B",), ("C",)),
          (("C",), ("A",), ("C",))]
    ss = []
    for progs in S2 + S3:
        for kind in ("plain", "falsy", "nested", "eq"):
            for fail in ((), (("A", 1),)):
                ss.append((progs, kind, fail, 2 + (1 if big else 0), False,
                           60000 if big else 4000))
    for progs in S2[:3] + S3[:1]:
        for kind in ("plain", "falsy"):
            ss.append((progs, kind, (), 2, True, 60000 if big else 4000))
    seqs = [(s, k, f) for n in range(1, 6 if big else 5)
            for s in itertools.product("ABCD", repeat=n)
            for k in ("plain", "falsy", "nested", "eq")
            for f in ((), (("A", 1),), (("B", 2), ("C", 1)))]
    ops = ("f1", "f2", "f12", "fk", "fx", "g1", "g12", "fail")
    mseq = [(s, k) for n in range(1, 6 if big else 5)
            for s in itertools.product(ops, repeat=n)
            for k in (("thing", "none", "falsy") if n < 4 or big
                      else ("falsy",))]
    # keys which are different but hash alike
    mseq += [(s, k) for n in range(2, 5 if big else 4)
             for s in itertools.product(("f-1", "f-2", "f-21", "f-12", "f0",
                                         "f", "g-1", "g-2"), repeat=n)
             for k in ("thing", "falsy")]
    return [
        Group("memo-interleavings", mm, memo,
              "all schedules of 2-3 threads calling memoised builders, with "
              "preemptions at every line/bytecode and inside the builder",
              "2-4 preemptions"),
        Group("singleton-interleavings", ss, singles,
              "all schedules of 2-3 threads asking for singletons of a class "
              "hierarchy", "2-3 preemptions"),
        Group("singleton-histories", seqs, single_seq,
              "all sequences of requests over four classes", "depth 4/5"),
        Group("memo-histories", mseq, memo_seq,
              "all sequences of calls on two memoised functions",
              "depth 4/5, 8 operations"),
    ]
