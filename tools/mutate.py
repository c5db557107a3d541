"""Development tool: mutate one source file, see which checks notice.

    mutate.py REL_FILE CHECK[,CHECK..] [STRIDE [OFFSET]]

Makes every STRIDE-th mutant of the file in a scratch copy of /repo, runs the
named quick checks against it and prints the mutants nobody notices.  It is
not part of any check.
"""
import ast
import os
import re
import shutil
import subprocess
import sys

CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=",
       ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in",
       ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*",
       ast.FloorDiv: "*", ast.Pow: "*", ast.Mod: "//"}


def offsets(src):
    o, t = [0], 0
    for line in src.splitlines(True):
        t += len(line.encode())
        o.append(t)
    return o


def mutants(src):
    tree = ast.parse(src)
    off = offsets(src)
    raw = src.encode()

    def span(n):
        return (off[n.lineno - 1] + n.col_offset,
                off[n.end_lineno - 1] + n.end_col_offset)

    def seg(n):
        a, b = span(n)
        return raw[a:b].decode()
    out = []

    def put(n, new, why):
        a, b = span(n)
        out.append((n.lineno, why, (raw[:a] + new.encode() +
                                    raw[b:]).decode()))
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            skip.add(n.value)
        if isinstance(n, (ast.Raise, ast.JoinedStr)):
            skip.update(ast.walk(n))
    for n in ast.walk(tree):
        if n in skip or not hasattr(n, "lineno"):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            put(n, "(%s %s %s)" % (seg(n.left), CMP[type(n.ops[0])],
                                   seg(n.comparators[0])), "compare")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (
                isinstance(n.left, ast.Constant) and
                isinstance(n.left.value, str)):
            put(n, "((%s) %s (%s))" % (seg(n.left), BIN[type(n.op)],
                                       seg(n.right)), "arith")
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            put(n, repr(n.value + 1), "constant")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            put(n, repr(not n.value), "bool")
        elif isinstance(n, ast.BoolOp):
            w = " or " if isinstance(n.op, ast.And) else " and "
            put(n, "(" + w.join("(%s)" % seg(v) for v in n.values) + ")",
                "boolop")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not,
                                                             ast.USub)):
            put(n, "(%s)" % seg(n.operand), "unary")
        elif isinstance(n, (ast.If, ast.While)):
            put(n.test, "False", "never")
            if isinstance(n, ast.If):
                put(n.test, "True", "always")
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute) and n.func.attr in (
                    "copy", "conj", "ravel", "astype", "squeeze"):
                put(n, seg(n.func.value), "drop ." + n.func.attr)
            if len(n.args) > 1:
                a, b = n.args[0], n.args[1]
                if seg(a) != seg(b) and not isinstance(a, ast.Starred):
                    put(n, "%s(%s)" % (seg(n.func), ", ".join(
                        [seg(b), seg(a)] + [seg(x) for x in n.args[2:]] +
                        ["%s=%s" % (k.arg, seg(k.value)) if k.arg else
                         "**" + seg(k.value) for k in n.keywords])), "swap")
            for k in n.keywords:
                if k.arg:
                    keep = [seg(x) for x in n.args] + [
                        "%s=%s" % (q.arg, seg(q.value)) if q.arg else
                        "**" + seg(q.value) for q in n.keywords if q is not k]
                    put(n, "%s(%s)" % (seg(n.func), ", ".join(keep)),
                        "drop " + k.arg)
        elif isinstance(n, ast.AugAssign):
            put(n, "%s = %s" % (seg(n.target), seg(n.value)), "assign")
            put(n, "pass", "no aug")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0],
                                                      ast.Subscript):
            put(n, "pass", "no store")
        elif isinstance(n, (ast.Break, ast.Continue)):
            put(n, "pass", "no jump")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            put(n, "pass", "no call")
        elif isinstance(n, ast.Raise):
            put(n, "pass", "no raise")
    good = []
    for line, why, text in out:
        try:
            ast.parse(text)
        except SyntaxError:
            continue
        good.append((line, why, text))
    good.sort(key=lambda t: (t[0], t[1]))
    return good


def main():
    rel, checks = sys.argv[1], sys.argv[2].split(",")
    stride = int(sys.argv[3]) if len(sys.argv) > 3 else 1
    first = int(sys.argv[4]) if len(sys.argv) > 4 else 0
    scratch = "/tmp/mut-%d" % os.getpid()
    shutil.copytree(os.environ.get("MUT_SRC", "/repo"), scratch, symlinks=True,
                    ignore=shutil.ignore_patterns(".git"))
    path = os.path.join(scratch, rel)
    src = open(path).read()
    env = dict(os.environ, VERIF_REPO=scratch)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    ms = mutants(src)[first::stride]
    base = src.splitlines()
    caught = 0
    try:
        for line, why, text in ms:
            with open(path, "w") as f:
                f.write(text)
            hit = None
            for c in checks:
                try:
                    r = subprocess.run([os.path.join(here, "run.sh"), c,
                                        "quick"], env=env, timeout=600,
                                       stdout=subprocess.PIPE,
                                       stderr=subprocess.STDOUT, text=True)
                except subprocess.TimeoutExpired:
                    hit = c + " timeout"
                    break
                if r.returncode == 1 and re.search("^VIOLATION", r.stdout,
                                                   re.M):
                    hit = c
                    break
                if r.returncode != 0:
                    hit = "%s exit %d (no answer)" % (c, r.returncode)
            if hit and "exit" not in hit:
                caught += 1
                continue
            new = text.splitlines()
            print("%s:%d %s%s\n   %s" % (
                rel, line, why, " [%s]" % hit if hit else "",
                new[line - 1].strip()), flush=True)
            if "exit" in (hit or ""):
                continue
    finally:
        shutil.rmtree(scratch)
    print("%s: %d of %d mutants noticed" % (rel, caught, len(ms)),
          flush=True)


if __name__ == "__main__":
    main()
