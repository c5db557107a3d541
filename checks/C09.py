"""C09: option strings, optional packages, result types."""
import ast
import builtins
import collections
import inspect
import itertools
import os
import shutil
import sys
import tempfile

import numpy as np

from core import Group, HarnessError, call, check, raises, state
from africanus.util.cmdline import parse_python_assigns
from africanus.util.code import format_code
from africanus.util.docs import (DocstringTemplate, doc_tuple_to_str,
                                 mod_docs)
from africanus.util.requirements import (MissingPackageException,
                                         requires_optional)
from africanus.util.testing import (force_missing_pkg_exception, in_pytest,
                                    mark_in_pytest)
from africanus.util.type_inference import infer_complex_dtype
import dask.array as da
import numba

ASSUMPTIONS = ["packages that exist, that do not and that fail while being "
               "imported stand for all optional packages"]

REJECT = (ValueError, TypeError, SyntaxError)
PROBED = []


def verif_probe(*a, **k):
    PROBED.append((a, k))
    return 1


builtins.verif_probe = verif_probe

# -- literals: (source, value) ----------------------------------------------
ATOMS = [("1", 1), ("-2", -2), ("+3", 3), ("0", 0), ("5.6", 5.6),
         ("-1e-3", -1e-3), ("2j", 2j), ("1+2j", 1 + 2j), ("1-2.5j", 1 - 2.5j),
         ("'hello, world'", "hello, world"), ("'a;b=2'", "a;b=2"),
         ('"it\'s"', "it's"), ("b'xy'", b"xy"), ("''", ""), ("True", True),
         ("False", False), ("None", None), ("()", ()), ("[]", []),
         ("{}", {}), ("0x10", 16), ("10**2", ValueError), ("1+2", ValueError)]
GOOD = [a for a in ATOMS if a[1] is not ValueError]
FEW = [GOOD[i] for i in (0, 1, 4, 7, 9, 14, 16)]


def containers(elems, n):
    """ every list/tuple/set/dict of n of the elements """
    out = []
    for es in itertools.product(elems, repeat=n):
        src = [e[0] for e in es]
        val = [e[1] for e in es]
        out.append(("[" + ",".join(src) + "]", list(val)))
        out.append(("(" + ",".join(src) + ("," if n == 1 else "") + ")",
                    tuple(val)))
        try:
            if n:
                out.append(("{" + ",".join(src) + "}", set(val)))
            out.append(("{" + ",".join("%s:%s" % p for p in
                                       zip(src, reversed(src))) + "}",
                        dict(zip(val, reversed(val)))))
        except TypeError:
            pass
    return out


def literal_space(depth):
    lv = list(GOOD)
    out = list(GOOD)
    one = containers(FEW, 1) + containers(FEW, 2)
    out += one
    if depth >= 2:
        out += containers(one[:40], 1) + containers(one[::17] + FEW[:2], 2)
    if depth >= 3:
        out += containers(out[-60:] + one[::23], 2)
    del lv
    seen, res = set(), []
    for s, v in out:
        if s not in seen:
            seen.add(s)
            res.append((s, v))
    return res


def slices(args):
    """ every call slice(...) of up to three of the arguments """
    out = []
    for n in (1, 2, 3):
        for es in itertools.product(args, repeat=n):
            out.append(("slice(%s)" % ",".join(e[0] for e in es),
                        slice(*(e[1] for e in es))))
    return out


SARGS = [("1", 1), ("None", None), ("-2", -2), ("[1,2]", [1, 2])]
SLICES = slices(SARGS)
NESTED = slices([SLICES[0], SLICES[6], ("3", 3)])

BAD = ["b", "x", "1+2", "10**2", "2*3", "not True", "-'a'", "~1",
       "1 if True else 2", "lambda: 1", "[i for i in (1,2)]", "a[0]",
       "(1).real", "f'{1}'", "verif_probe()", "verif_probe(1)",
       "verif_probe", "[verif_probe()]", "{1: verif_probe()}",
       "(verif_probe(),)", "slice(verif_probe())",
       "slice(1, verif_probe(2))", "slice(1, 2, step=verif_probe())",
       "slice(*[1, 2])", "slice(**{'a': 1})",
       "slice(1, **{'a': 1})", "slice(1, 2, **{})", "slice()", "slice(1,2,3,4)",
       "slice(start=1)", "slice([verif_probe()])", "open('/nonexistent')",
       "eval('verif_probe()')", "exec('verif_probe()')",
       "__import__('os')", "int('1')", "str(1)", "getattr(1, 'real')",
       "builtins.slice(1)", "os.getcwd()", "(lambda: verif_probe())()",
       "[1][0]", "'a'.upper()", "(verif_probe)()", "print(verif_probe())",
       "1 < 2", "True and verif_probe()", "verif_probe() or 1",
       "(y := 1)", "...a", "slice[1]", "slice", "slice(1)(2)",
       "slice(1).start", "SLICE(1)", "slic(1)", "[slice(1)]+[2]",
       "{**{}}", "[*[1]]", "yield", "await x", "*1", "`1`", "1 2",
       "slice(x)", "slice(1, *())+1", "dict(a=1)", "range(3)"]

BADSTMT = ["a", "1", "a += 1", "a: int = 1", "a.b = 1", "a[0] = 1",
           "import os", "del a", "pass", "verif_probe()", "print(1)",
           "return 1", "a = ", "= 1", "a == 1", "if True: a = 1",
           "for a in (1,): b = 1", "with x: a = 1", "a = 1 b = 2",
           "1 = a", "'a' = 1", "None = 1", "f() = 1", "(a.b, c) = 1, 2",
           "*a, b = 1, 2, 3", "(a, (b, c)) = (1, (2, 3))",
           "a, b[0] = 1, 2", "def a(): pass", "class a: pass",
           "global a", "assert verif_probe()", "raise ValueError",
           "a, b = 1", "a, b = 1, 2, 3", "a, b = 'xy'", "[a, b] = [1]",
           "a, b = {}", "(a,) = 1, 2", "lambda: 1", "a -> 1", "a = 1;; b"]


def same(a, b):
    """ equal in value, type and (recursively) in their parts """
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict):
        return list(map(repr, a)) == list(map(repr, b)) and all(
            same(x, y) for x, y in zip(a.values(), b.values()))
    if isinstance(a, slice):
        return all(same(getattr(a, n), getattr(b, n))
                   for n in ("start", "stop", "step"))
    if isinstance(a, float):
        return repr(a) == repr(b)
    return a == b


def expect(src, want):
    del PROBED[:]
    got = call(parse_python_assigns, src)
    check(not PROBED, "%r evaluated a call", src)
    check(type(got) is dict and list(got) == list(want) or
          set(got) == set(want), "%r gives the names %s, expected %s", src,
          sorted(got), sorted(want))
    for k in want:
        check(same(got[k], want[k]), "%r: %s is %r, expected %r", src, k,
              got[k], want[k])


def reject(src):
    del PROBED[:]
    e = raises(parse_python_assigns, src)
    check(not PROBED, "%r evaluated a call", src)
    check(e is not None, "%r is accepted", src)
    check(isinstance(e, REJECT), "%r is rejected with %s: %s", src,
          type(e).__name__, e)


_SPACE = {}


def space(name, depth):
    if (name, depth) not in _SPACE:
        _SPACE[name, depth] = {"lit": lambda: literal_space(depth),
                               "slice": lambda: SLICES + NESTED}[name]()
    return _SPACE[name, depth]


TEMPLATES = [
    ("a=%s", lambda v: {"a": v}),
    ("a=b=%s", lambda v: {"a": v, "b": v}),
    ("a=b=c=%s", lambda v: {"a": v, "b": v, "c": v}),
    ("a=b,c=d=e=%s,1", lambda v: {"a": (v, 1), "b": v, "c": 1, "d": (v, 1),
                                  "e": (v, 1)}),
    ("x=7; a=%s; y='q'", lambda v: {"x": 7, "a": v, "y": "q"}),
    ("a=1; a=%s", lambda v: {"a": v}),
    ("(a,)=(%s,)", lambda v: {"a": v}),
    ("a,b=2,%s", lambda v: {"a": 2, "b": v}),
    ("[a,b]=[%s,None]", lambda v: {"a": v, "b": None}),
    ("a=b,c=%s,1", lambda v: {"a": (v, 1), "b": v, "c": 1}),
    (" a = %s ", None),
]


def literals(p):
    which, depth, lo, hi = p
    n = 0
    for src, v in space(which, depth)[lo:hi]:
        for t, f in TEMPLATES:
            s = t % src
            if f is None:
                # leading white space is not an assignment
                continue
            if which == "slice" and t not in TEMPLATES_CALL:
                continue
            expect(s, f(v))
            n += 1
            state()
    return min(n, 1)


TEMPLATES_CALL = ["a=%s", "a=b=%s", "a=b=c=%s", "x=7; a=%s; y='q'",
                  "a=1; a=%s"]


def unpack(p):
    """ every shape of targets against every number of values """
    nt, style, nv, vstyle = p
    names = ["v%d" % i for i in range(nt)]
    lhs = {"tuple": "(%s,)", "list": "[%s]", "bare": "%s,"}[style] % \
        ",".join(names)
    vals = list(range(10, 10 + nv))
    src = {"tuple": "(%s,)" % ",".join(map(str, vals)) if nv else "()",
           "list": str(vals), "scalar": "5", "str": repr("z" * nv),
           "dict": str({v: v for v in vals}),
           "slice": "slice(%d)" % nv}[vstyle]
    s = lhs + "=" + src
    value = ast.literal_eval(src) if vstyle != "slice" else slice(nv)
    elems = value if isinstance(value, (tuple, list)) else (value,)
    if len(elems) == nt:
        expect(s, dict(zip(names, elems)))
        return "ok"
    reject(s)
    return "rejected"


def bad_values(p):
    t, v = p
    reject(t % v)
    return 0


def bad_statements(p):
    pre, s, post = p
    reject(pre + s + post)
    return 0


def empties(p):
    check(call(parse_python_assigns, p[0]) == {}, "%r", p[0])
    return 0


# -- optional packages -------------------------------------------------------
ALPHA = ("json", "xml.dom", "no_such_pkg_a", "no_such_pkg_b.sub",
         "verif_broken_pkg", "None", "ImportErrorA", "ModuleNotFoundB",
         "FORCE")


class World(object):
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="verif-c09-")
        with open(os.path.join(self.d, "verif_broken_pkg.py"), "w") as f:
            f.write("import no_such_dependency\n")
        sys.path.insert(0, self.d)
        sys.dont_write_bytecode = True

    def __exit__(self, *a):
        sys.path.remove(self.d)
        shutil.rmtree(self.d)
        sys.modules.pop("verif_broken_pkg", None)
        mark_in_pytest(False)


def requirement(name):
    return {"None": None, "ImportErrorA": ImportError("cannot A"),
            "ModuleNotFoundB": ModuleNotFoundError("cannot B"),
            "FORCE": force_missing_pkg_exception, "5": 5,
            "bytes": b"json"}.get(name, name)


def gate(p):
    reqs, marked, kind = p
    missing = [r for r in reqs if r.startswith(("no_such", "verif_"))]
    errors = [r for r in reqs if r in ("ImportErrorA", "ModuleNotFoundB")]
    bad = [r for r in reqs if r in ("5", "bytes")]
    forced = "FORCE" in reqs
    ran = []

    def plain(a, b=2, *args, **kw):
        """ the documentation """
        ran.append((a, b, args, kw))
        return a, b, args, kw

    class Cls(object):
        def method(self, a, b=2, *args, **kw):
            ran.append((a, b, args, kw))
            return a, b, args, kw

    with World():
        mark_in_pytest(marked)
        check(in_pytest() is marked, "marker")
        fn = plain if kind == "plain" else Cls.method
        # decoration
        deco = None
        try:
            deco = call(requires_optional(*[requirement(r) for r in reqs]),
                        fn)
            exc = None
        except Exception as e:
            exc = e
        if bad:
            check(isinstance(exc, TypeError), "requirement %s: %r", reqs, exc)
            return "badtype"
        if errors and not missing:
            check(isinstance(exc, ImportError), "import errors with every "
                  "package present (%s): %r", reqs, exc)
            for r in errors:
                check(str(requirement(r)) in str(exc), "%r not in %s", r, exc)
            return "importerror"
        check(exc is None, "decorating with %s raises %r", reqs, exc)
        check(not ran, "decorating calls the function")
        check(deco.__name__ == fn.__name__ and
              deco.__doc__ == fn.__doc__ and
              str(inspect.signature(deco)) == str(inspect.signature(fn)),
              "decorated function differs in name, doc or signature")
        args = ((1,), (1, 5), (1, 5, 6, 7))
        kws = ({}, {"z": 3})
        for a, k in itertools.product(args, kws):
            me = () if kind == "plain" else (Cls(),)
            del ran[:]
            try:
                r = call(deco, *(me + a), **k)
                e = None
            except BaseException as x:      # pytest's Skipped
                r, e = None, x
                if isinstance(x, (SystemExit, KeyboardInterrupt)):
                    raise
            if not missing:
                check(e is None and r == fn(*(me + a), **k),
                      "with %s: %r %r", reqs, r, e)
                continue
            check(not ran, "runs although %s are missing", missing)
            check(e is not None, "no error although %s are missing", missing)
            if marked and not forced:
                check(type(e).__name__ == "Skipped", "in pytest: %r", e)
            else:
                check(isinstance(e, MissingPackageException), "%r", e)
            for m in missing + [str(requirement(x)) for x in errors]:
                check(m in str(e), "missing %s not named: %s", m, e)
            check(fn.__name__ in str(e), "function not named: %s", e)
            for r_ in reqs:
                if r_ in ("json", "xml.dom"):
                    check(repr(r_) not in str(e), "%s is there but named",
                          r_)
        return (bool(missing), bool(errors))


def late(p):
    """ presence is decided when decorating, and per function """
    order = p[0]
    with World():
        mark_in_pytest(False)
        fns = {}
        for o in order:
            if o == "install":
                with open(os.path.join(sys.path[0], "verif_late.py"),
                          "w") as f:
                    f.write("x = 1\n")
                import importlib
                importlib.invalidate_caches()
            elif o == "deco":
                fns[len(fns)] = ("install" in order[:order.index("install")]
                                 if "install" in order else False,
                                 requires_optional("verif_late")(
                                     lambda: 42), None)
            else:
                for i, (_, f, _) in fns.items():
                    raises(f)
        sys.modules.pop("verif_late", None)
        # the state at decoration decides
        have = False
        i = 0
        for o in order:
            if o == "install":
                have = True
            elif o == "deco":
                e = raises(fns[i][1])
                check((e is None) == have, "%s: function %d: %r", order, i,
                      e)
                i += 1
    return order.count("deco")


# -- type inference ----------------------------------------------------------
DT = ("bool", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64",
      "uint64", "float16", "float32", "float64", "complex64", "complex128")


def infer(p):
    dts, kinds, nd = p
    args = []
    for d, k in zip(dts, kinds):
        if k == "numpy":
            args.append(np.zeros((1,) * nd, dtype=d))
        elif k == "dask":
            args.append(da.zeros((1,) * nd, dtype=d))
        else:
            args.append(numba.types.Array(
                numba.from_dtype(np.dtype(d)), nd, "C"))
    want = np.complex64
    want = np.result_type(*([np.dtype("complex64")] +
                            [np.dtype(d) for d in dts]))
    got = call(infer_complex_dtype, *args)
    check(np.dtype(got) == want, "complex type of %s %s is %s, expected %s",
          dts, kinds, got, want)
    return str(want)


def infer_bad(p):
    v = {"int": 1, "float": 1.0, "None": None, "list": [1.0],
         "dtype": np.dtype("f8")}[p[0]]
    e = raises(infer_complex_dtype, np.zeros(1), v)
    check(isinstance(e, ValueError), "%r: %r", v, e)
    return 0


def stripes(which, depth, step):
    n = len(space(which, depth))
    return [(which, depth, i, min(n, i + step)) for i in range(0, n, step)]


# ------------------------------------------------------------ documentation
NAMES = {"a": "alpha", "b1": "beta", "_c": "gamma $ $(a) $$"}
PIECES = ("$(a)", "$(b1)", "$_c", "$a", "$$", "(a)", "x", " ", "\n", "$(a)b1",
          "{a}")


def expand(text):
    """ left to right: $$ -> $, $(name) and $name -> value """
    out, i = [], 0
    while i < len(text):
        if text[i] != "$":
            out.append(text[i])
            i += 1
            continue
        rest = text[i + 1:]
        if rest[:1] == "$":
            out.append("$")
            i += 2
            continue
        inner = rest[1:] if rest[:1] == "(" else rest
        n = 0
        while n < len(inner) and (inner[n].isalpha() or inner[n] == "_" or
                                  (n and inner[n].isdigit())):
            n += 1
        if not n or (rest[:1] == "(" and inner[n:n + 1] != ")"):
            return ValueError
        if inner[:n] not in NAMES:
            return KeyError
        out.append(NAMES[inner[:n]])
        i += 1 + n + (2 if rest[:1] == "(" else 0)
    return "".join(out)


def template(p):
    text = "".join(p)
    want = expand(text)
    if isinstance(want, type):
        e = raises(DocstringTemplate(text).substitute, **NAMES)
        check(isinstance(e, want), "%r gives %r", text, e)
        return want.__name__
    got = call(DocstringTemplate(text).substitute, **NAMES)
    check(got == want, "%r becomes %r, expected %r", text, got, want)
    return "text"


def replaced(p):
    fields, reps, kind = p
    if kind == "named":
        doc = collections.namedtuple("Doc", ["f%d" % i for i in range(
            len(fields))])(*fields)
    else:
        doc = dict(enumerate(fields))
    want = []
    for f in fields:
        for a, b in reps or ():
            f = f.replace(a, b)
        want.append(f)
    got = call(doc_tuple_to_str, doc) if reps is None else call(
        doc_tuple_to_str, doc, replacements=reps)
    check(got == "".join(want), "%r with %r becomes %r", fields, reps, got)
    for f, w in zip(fields, want):
        check(call(mod_docs, f, reps or ()) == w, "%r with %r", f, reps)
    return "text"


def numbered(p):
    text = "\n".join(p)
    lines = call(format_code, text).split("\n")
    lines = lines[len(lines) - len(p):]
    for i, (l, w) in enumerate(zip(lines, p), 1):
        num, _, rest = l.partition(" ")
        check(num == str(i) and l.endswith(w), "line %d of %r shows as %r", i,
              text, l)
    check(len(lines) == len(p), "%d lines of %d", len(lines), len(p))


def groups(tier):
    big = tier == "thorough"
    depth = 3 if big else 2
    alpha = ALPHA
    reqs = [r for n in range(0, 5 if big else 4)
            for r in itertools.product(alpha, repeat=n)]
    reqs += [("5",), ("json", "5"), ("bytes",), ("no_such_pkg_a", "5")]
    kinds = ("numpy", "dask", "numba")
    inf = [(d, k, nd) for n in (0, 1, 2) for d in itertools.product(
        DT, repeat=n) for k in itertools.product(kinds, repeat=n)
        for nd in ((0, 1, 3) if n < 2 else (0, 2))
        if not (("numba" in k) and "float16" in d)]
    inf += [(d, k, 1) for d in itertools.product(DT if big else DT[3:14:3],
                                                 repeat=3)
            for k in (("numpy",) * 3, ("dask", "numpy", "numba"))
            if not (("numba" in k) and d[2] == "float16")]
    return [
        Group("literals", stripes("lit", depth, 50) +
              stripes("slice", 1, 50), literals,
              "every literal / builtin call in every assignment form",
              "nesting depth <= %d, <= 2 elements, %d templates" % (
                  depth, len(TEMPLATES) - 1)),
        Group("unpack", [(nt, st, nv, vs) for nt in (1, 2, 3)
                         for st in ("tuple", "list", "bare")
                         for nv in (0, 1, 2, 3, 4)
                         for vs in ("tuple", "list", "scalar", "str", "dict",
                                    "slice")
                         if not (vs == "scalar" and nv != 1)], unpack,
              "unpacking", "<= 3 targets, <= 4 values"),
        Group("rejected-values", [(t, v) for t in (
            "a=%s", "a=1; b=%s", "a=%s; b=1", "a=b=%s", "a=[1,%s]",
            "a=slice(%s)", "a=(%s)", "a={1:%s}", "a=slice(1,%s)")
            for v in BAD if not (
                v == "slice(1)(2)x" or (
                    "slice(%s)" in t and v in ("*1x",)))], bad_values,
            "every other construct is rejected unevaluated",
            "%d constructs in 9 places" % len(BAD)),
        Group("rejected-statements", [
            (a, s, b) for a in ("", "z=1; ") for s in BADSTMT
            for b in ("", "; w=2") if not (b and s == "a =")],
            bad_statements, "only assignments", "%d statements" %
            len(BADSTMT)),
        Group("empty", [("",), (None,)], empties, "nothing", "2"),
        Group("optional", [(r, m, k) for r in reqs for m in (False, True)
                           for k in ("plain", "method")
                           if len(r) < 3 or k == "plain"], gate,
              "all sequences of requirements", "<= %d of %d" % (
                  4 if big else 3, len(alpha))),
        Group("optional-late", [(o,) for n in (1, 2, 3, 4) for o in
                                itertools.product(("deco", "install",
                                                   "call"), repeat=n)
                                if o.count("install") <= 1], late,
              "histories of decorating, installing and calling", "<= 4"),
        Group("types", inf, infer, "all tuples of types and array kinds",
              "<= 3 arguments"),
        Group("types-bad", [(x,) for x in ("int", "float", "None", "list",
                                           "dtype")], infer_bad, "non arrays",
              "listed"),
        Group("templates", [t for n in range(0, 5 if big else 4)
                            for t in itertools.product(PIECES, repeat=n)] +
              [("$",), ("$(",), ("$()",), ("$(a",), ("$(zz)",), ("$zz",),
               ("$1",), ("$(1)",), ("${a}",), ("$(a ) ",)], template,
              "documentation templates substitute the fields and nothing "
              "else", "<= %d pieces of %d" % (4 if big else 3, len(PIECES))),
        Group("replacements", [
            (f, r, k) for n in (1, 2, 3) for f in itertools.product(
                ("", "numpy a", "a.b numpy numpy"), repeat=n)
            for r in (None, (), (("numpy", "dask"),),
                      (("a", "b"), ("b", "c")), (("b", "c"), ("a", "b")))
            for k in ("named", "dict")], replaced,
            "joined fields with replacements applied in order", "<= 3"),
        Group("numbered", [(t * 7)[:n] for n in (1, 2, 9, 10, 11, 101)
                           for t in (("",) * 20, ("a b", "", "  x") * 7)],
              numbered, "listings number every line", "<= 101 lines"),
    ]
