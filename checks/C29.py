"""C29: CUDA sources compiled with nvcc.

A shell script stands in for nvcc (and one for the host compiler): it records
how it was called, answers the device query and "compiles" by writing its
arguments and the source.  All configurations of the environment, device
lists, outputs of the probe, histories of compilations and interleavings of
two compiling threads are enumerated against the real module."""
import contextlib
import importlib
import itertools
import os
import re
import shutil
import sys
import tempfile
import types

import csched
csched.install()

from core import Group, check, raises, state    # noqa

ASSUMPTIONS = [
    "nvcc and cupy are not installed: a script which records its arguments "
    "and a module which loads the file it is given take their place",
    "/usr/local/cuda does not exist on the machine (else those cases are "
    "skipped)"]
FILES = (csched.REPO + "/africanus/util/nvcc.py",)

NVCC = r"""#!/bin/sh
root=%(root)s
out= src= prev= cubin=
for a in "$@"; do
  [ "$prev" = -o ] && out=$a
  case $a in *.cu) src=$a;; -cubin) cubin=1;; esac
  prev=$a
done
if [ -n "$cubin" ]; then
  if grep -q BREAK "$src"; then
    grep BREAK "$src" | sed 's/^/complaint: /' >&2
    exit 1
  fi
  grep -q WARN "$src" && echo warning >&2
  { echo "%(name)s"; printf '%%s\037' "$@"; echo; cat "$src"; } > "$out"
elif grep -q cuda.h "$src"; then
  cp "$root/info" "$out" && chmod 755 "$out"
else
  cat "$root/probe.err" >&2
  exit $(cat "$root/probe.rc")
fi
"""
CC = r"""#!/bin/sh
out= prev=
for a in "$@"; do [ "$prev" = -o ] && out=$a; prev=$a; done
echo "host compiler" > "$out"
"""
INFO = r"""#!/bin/sh
cat <<EOF
{
'cuda_version': %d,
'devices': [
%s
]
}
EOF
"""
DEVICE = "{\n'name' :'Dev %d',\n'major' :  %d,\n'minor' :  %d,\n},"


def script(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)
    os.chmod(path, 0o755)


class Module(object):
    def load_file(self, path):
        with open(path) as f:
            self.text = f.read()


class World(object):
    """ a scratch directory, an environment and a fresh copy of the module """

    def __init__(self, devices=((7, 0),), version=10010, rc=0, err="",
                 path=("A",), cuda_path=None, nvcc=None, bare=()):
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="nvcc-"))
        r = self.root
        for n in "ABC":
            if n not in bare:
                script("%s/cuda%s/bin/nvcc" % (r, n),
                       NVCC % {"root": r, "name": n})
            else:
                os.makedirs("%s/cuda%s/bin" % (r, n))
        script(r + "/host/cc", CC)
        script(r + "/host/gcc", CC)
        script(r + "/info", INFO % (version, "\n".join(
            DEVICE % ((i,) + d)
            for i, d in enumerate(devices))))
        for n, t in (("probe.rc", str(rc)), ("probe.err", err)):
            with open(r + "/" + n, "w") as f:
                f.write(t)
        for d in ("cwd", "tmp", "site/cupy/core/include"):
            os.makedirs(r + "/" + d)
        self.keep = dict(os.environ), os.getcwd(), tempfile.tempdir
        os.chdir(r + "/cwd")
        for k in ("CUDA_PATH", "NVCC", "CC", "CFLAGS"):
            os.environ.pop(k, None)
        sysbin = self.keep[0].get("PATH", "/bin:/usr/bin")
        os.environ["PATH"] = os.pathsep.join(
            [r + "/host"] + ["%s/cuda%s/bin" % (r, n) for n in path] +
            [sysbin])
        if cuda_path is not None:
            os.environ["CUDA_PATH"] = cuda_path.replace("@", r)
        if nvcc is not None:
            os.environ["NVCC"] = nvcc.replace("@", r)
        tempfile.tempdir = r + "/tmp"
        cupy = types.ModuleType("cupy")
        cupy.__file__ = r + "/site/cupy/__init__.py"
        cupy.__path__ = [r + "/site/cupy"]
        cupy.cuda = types.SimpleNamespace(
            function=types.SimpleNamespace(Module=Module))
        self.cupy = sys.modules.get("cupy")
        sys.modules["cupy"] = cupy
        self.load()

    def load(self):
        sys.modules.pop("africanus.util.nvcc", None)
        self.mod = importlib.import_module("africanus.util.nvcc")

    def close(self):
        env, cwd, tmp = self.keep
        os.environ.clear()
        os.environ.update(env)
        os.chdir(cwd)
        tempfile.tempdir = tmp
        if self.cupy is None:
            sys.modules.pop("cupy", None)
        else:
            sys.modules["cupy"] = self.cupy
        sys.modules.pop("africanus.util.nvcc", None)
        shutil.rmtree(self.root)

    def traces(self):
        """ what a compilation must leave as it was """
        out = []
        for d in ("cwd", "tmp"):
            for b, ds, fs in os.walk(self.root + "/" + d):
                out += [os.path.join(b, f)[len(self.root):] for f in ds + fs]
        st = os.fstat(2)
        return (sorted(out), (st.st_dev, st.st_ino),
                len(os.listdir("/proc/self/fd")), dict(os.environ),
                os.getcwd())


@contextlib.contextmanager
def world(**kw):
    import logging
    logging.disable(logging.CRITICAL)
    w = World(**kw)
    try:
        yield w
    finally:
        w.close()
        logging.disable(logging.NOTSET)


def source(tag, kind):
    s = ["#include <cupy/carray.cuh>", "// %s" % tag,
         'extern "C" __global__ void k%s() {' % tag]
    if kind == "fail":
        s.append("BREAK %s;" % tag)
    if kind == "warn":
        s.append("WARN %s;" % tag)
    return "\n".join(s + ["}", ""])


def parse(mod):
    name, args, src = mod.text.split("\n", 2)
    return name, args.split("\037")[:-1], src


def within(part, whole):
    """ the sequence part occurs, contiguously, in whole """
    return any(whole[i:i + len(part)] == part
               for i in range(len(whole) - len(part) + 1))


def compiled(w, mod, src, options, arch, who, base, what):
    name, args, got = parse(mod)
    check(name == who, "compiled by nvcc %s, not %s (%s)", name, who, what)
    check(got == src, "the source compiled is not that given (%s)", what)
    gen = [a for a in args if a.startswith(("--generate-code", "-gencode",
                                            "-arch", "--gpu-arch"))]
    want = "--generate-code=arch=compute_%d,code=sm_%d" % (arch, arch)
    check(gen == [want], "compiled for %s, expected %s (%s)", gen, want, what)
    check(args.count("-cubin") == 1 and args.count("-o") == 1,
          "arguments %s (%s)", args, what)
    check(within(list(options), args), "options %s are missing in %s (%s)",
          options, args, what)
    check(within(base, args), "host options %s are missing in %s (%s)", base,
          args, what)
    inc = [a[2:] for a in args if a.startswith("-I")]
    for d in (w.root + "/site/cupy/core/include",
              w.root + "/cuda%s/include" % who):
        check(d in inc, "%s is not searched for headers: %s (%s)", d, inc,
              what)


# ------------------------------------------------------------- environment
def environment(p):
    path, cuda_path, nvcc, bare = p
    with world(path=path, cuda_path=cuda_path, nvcc=nvcc, bare=bare) as w:
        r = w.root
        first = [n for n in path if n not in bare][:1]
        default = "%s/cuda%s" % (r, first[0]) if first else None
        cp = (cuda_path or "").replace("@", r)
        if cp and os.path.exists(cp):
            want = cp
        elif default:
            want = default
        elif os.path.exists("/usr/local/cuda"):
            return "machine has /usr/local/cuda"
        else:
            want = None
        got = w.mod.get_cuda_path()
        check((got and os.path.normpath(got)) == want, "cuda is at %s, "
              "expected %s (%s)", got, want, p)
        if nvcc:
            cmd = {"@/cudaC/bin/nvcc": [r + "/cudaC/bin/nvcc"],
                   "@/cudaC/bin/nvcc --user 'a b'":
                   [r + "/cudaC/bin/nvcc", "--user", "a b"],
                   "\"@/cudaC/bin/nvcc\"": [r + "/cudaC/bin/nvcc"]}[nvcc]
        elif want and os.path.exists(want + "/bin/nvcc"):
            cmd = [want + "/bin/nvcc"]
        else:
            cmd = None
        got = w.mod.get_nvcc_path()
        check(got == cmd, "nvcc is %s, expected %s (%s)", got, cmd, p)
        inc = w.mod.get_compiler_setting()["include_dirs"]
        check(inc == ([want + "/include"] if want else []), "includes %s for "
              "%s", inc, p)
        state()
        t0 = w.traces()
        src = source("x", "ok")
        if cmd is None:
            e = raises(w.mod.compile_using_nvcc, src)
            check(e is not None, "compiled without nvcc (%s)", p)
            check(w.traces() == t0, "left behind: %s", w.traces())
            return "none"
        mod = w.mod.compile_using_nvcc(src)
        name, args, got = parse(mod)
        check(name == cmd[0].split("/cuda")[1][0] and got == src,
              "compiled by %s (%s)", name, p)
        check(args[:len(cmd) - 1] == cmd[1:], "arguments %s (%s)", args, p)
        check(w.traces() == t0, "left behind: %s", w.traces())
        return name


# ----------------------------------------------------------------- devices
def devices(p):
    devs, version, arch = p
    with world(devices=devs, version=version) as w:
        src = source("x", "ok")
        info = w.mod.get_cuda_info()
        check([(d["major"], d["minor"]) for d in info["devices"]] ==
              list(devs) and info["cuda_version"] == version, "query: %s",
              info)
        want = ["--generate-code=arch=compute_%d%d,code=sm_%d%d" % (d + d)
                for d in devs]
        check(w.mod.get_gencode_options() == want, "options %s for devices "
              "%s", w.mod.get_gencode_options(), devs)
        t0 = w.traces()
        kw = {} if arch is None else {"arch": arch}
        if version < 8000:
            e = raises(w.mod.get_cuda_version)
            check(isinstance(e, ValueError), "version %d gives %r", version,
                  e)
            e = raises(w.mod.compile_using_nvcc, src, **kw)
            check(e is not None, "compiled with version %d", version)
            res = "old"
        elif not devs and arch is None:
            e = raises(w.mod.compile_using_nvcc, src, **kw)
            check(e is not None, "compiled for no device")
            res = "no device"
        else:
            check(w.mod.get_cuda_version() == version and
                  w.mod.get_cuda_version(formatted=True) == str(version),
                  "version %s", w.mod.get_cuda_version())
            mod = w.mod.compile_using_nvcc(src, **kw)
            low = min(a * 10 + b for a, b in devs) if arch is None else arch
            compiled(w, mod, src, [], low, "A", [], "%s" % (p,))
            res = low
        check(w.traces() == t0, "left behind: %s", w.traces())
        return res


# ------------------------------------------------------------------- probe
E_LINE = ("ERROR: No supported gcc/g++ host compiler found, "
          "but clang %d is available.")
U_LINE = "    Use 'nvcc -ccbin clang++-%d -x y' to use that instead."


def probe(p):
    lines, newline, rc = p
    text = "\n".join({"E": E_LINE % i, "U": U_LINE % i, "x": "noise %d" % i,
                      "e": " " + E_LINE % i, "u": U_LINE % i + " please",
                      "": ""}[k] for i, k in enumerate(lines))
    with world(rc=rc, err=text + ("\n" if newline else "")) as w:
        src = source("x", "ok")
        base = [] if rc == 0 else None
        for i in range(len(lines) - 1):
            if base is None and lines[i] == "E" and lines[i + 1] == "U":
                base = ["-ccbin", "clang++-%d" % (i + 1), "-x", "y"]
        t0 = w.traces()
        state()
        if base is None:
            e = raises(w.mod.compile_using_nvcc, src)
            check(isinstance(e, RuntimeError) and text.strip() in str(e),
                  "unknown nvcc error %r gives %r", text, e)
        else:
            for _ in range(2):
                mod = w.mod.compile_using_nvcc(src)
                compiled(w, mod, src, [], 70, "A", base, text)
        check(w.traces() == t0, "left behind: %s", w.traces())
        return None if base is None else len(base)


# --------------------------------------------------------------- histories
def history(p):
    ops, how = p
    with world() as w:
        shared = ["-I /some where", "-DX=1"]
        seen, commands = [], {}
        for n, op in enumerate(ops):
            opts = {"none": None, "shared": shared, "empty": [],
                    "tuple": tuple(shared)}[how]
            before = list(opts or ())
            tag = "%s%d" % (op, n)
            src = source(tag, op)
            cc = w.mod.get_compiler()
            so = list(cc.compiler_so)
            t0 = w.traces()
            kw = {}
            if how != "none":
                kw["options"] = opts
            arch = 70
            if op == "arch":
                kw["arch"] = arch = 35
            if op == "named":
                kw["filename"] = "other.cu"
            what = "step %d of %s, options %s" % (n, ops, how)
            if op == "c":
                with open("x.c", "w") as f:
                    f.write("int main() {}")
                o = cc.compile(["x.c"], output_dir=w.root + "/out")
                with open(o[0]) as f:
                    check(f.read() == "host compiler\n", "a C source was not "
                          "given to the host compiler (%s)", what)
                os.remove("x.c")
                os.remove(o[0])
            elif op == "fail":
                e = raises(w.mod.compile_using_nvcc, src, **kw)
                check(type(e).__name__ == "CompileError", "a failing "
                      "compilation gives %r (%s)", e, what)
                for l in src.split("\n"):
                    check(l in str(e), "%r is not shown (%s)", l, what)
                check("complaint: BREAK %s" % tag in str(e), "the compiler's "
                      "message is not shown: %s (%s)", e, what)
            else:
                mod = w.mod.compile_using_nvcc(src, **kw)
                compiled(w, mod, src, before, arch, "A", [], what)
                seen.append(mod)
                # the command does not depend on what was compiled before
                cmd = [re.sub(r"tmp[a-z0-9_]{8}", "T", a) for a in parse(mod)[1]]
                key = op if op in ("arch", "named") else "ok"
                check(commands.setdefault(key, cmd) == cmd, "the arguments "
                      "became %s, were %s (%s)", cmd, commands[key], what)
            check(list(opts or ()) == before, "the caller's options became "
                  "%s (%s)", opts, what)
            check(list(cc.compiler_so) == so, "the compiler is left "
                  "configured as %s (%s)", cc.compiler_so, what)
            t1 = w.traces()
            for a, b, name in zip(t0, t1, ("files", "error channel",
                                           "open files", "environment",
                                           "directory")):
                check(a == b, "%s: %s, was %s (%s)", name, b, a, what)
            state()
        return len(seen)


# ---------------------------------------------------------------- channels
def channels(p):
    with world() as w:
        redirect = w.mod.stdchannel_redirected
        names = [w.root + "/chan%d" % i for i in range(2)]
        chans = [open(n, "w") for n in names]
        want = {n: "" for n in names}
        nfd = len(os.listdir("/proc/self/fd"))
        ndest = [0]

        def say(i, where, text):
            os.write(chans[i].fileno(), text.encode())
            want[where[i]] = want.get(where[i], "") + text

        def run(ops, where):
            for op in ops:
                state()
                if isinstance(op, str):
                    say(int(op), where, "<%s>" % op)
                    continue
                i, kind, inner = op
                ndest[0] += 1
                dest = w.root + "/dest%d" % ndest[0]
                if kind == "bad":
                    e = raises(redirect(chans[i], w.root + "/no/dir"
                                        ).__enter__)
                    check(isinstance(e, OSError), "redirecting to an "
                          "impossible file gives %r", e)
                    run(inner, where)
                    continue
                new = dict(where)
                new[i] = dest
                want[dest] = ""
                try:
                    with redirect(chans[i], dest):
                        run(inner, new)
                        if kind == "raise":
                            raise KeyError("inner")
                except KeyError:
                    check(kind == "raise", "foreign error")
                else:
                    check(kind != "raise", "an error was swallowed")
        run(p, dict(enumerate(names)))
        check(len(os.listdir("/proc/self/fd")) == nfd, "%d files open, were "
              "%d", len(os.listdir("/proc/self/fd")), nfd)
        for c in chans:
            c.close()
        for n, t in want.items():
            with open(n) as f:
                got = f.read()
            check(got == t, "%s holds %r, expected %r (%s)",
                  os.path.basename(n), got, t, p)


# ----------------------------------------------------------------- threads
def threads(p):
    progs, warm, bound, root = p
    with world() as w:
        box = {}
        if warm:
            w.mod.compile_using_nvcc(source("w", "ok"))
        saved = {k: getattr(w.mod, k) for k in dir(w.mod)
                 if k.startswith("_") and not k.startswith("__") and
                 not callable(getattr(w.mod, k))}
        t0 = w.traces()

        def body(rt):
            for k, v in saved.items():
                setattr(w.mod, k, v)
            box["res"] = res = {}

            def user(i, ops):
                def go():
                    for n, op in enumerate(ops):
                        src = source("t%d%d" % (i, n), op)
                        try:
                            res[i, n] = w.mod.compile_using_nvcc(src)
                        except Exception as e:    # noqa
                            res[i, n] = e
                return go
            for i, ops in enumerate(progs):
                rt.spawn("t%d" % i, user(i, ops))

        def judge(rt):
            sch = [c for c, _ in rt.choices]
            t1 = w.traces()
            if t1[1] != t0[1]:      # do not spoil what follows
                box["fd"] = True
            check(rt.aborting is None, "threads cannot finish: %s; schedule "
                  "%s", rt.aborting, sch)
            check(t1 == t0, "error channel, files or environment changed: "
                  "%s, was %s; schedule %s", t1[:3], t0[:3], sch)
            for i, ops in enumerate(progs):
                for n, op in enumerate(ops):
                    r = box["res"].get((i, n))
                    tag = "t%d%d" % (i, n)
                    src = source(tag, op)
                    if op == "fail":
                        check(type(r).__name__ == "CompileError" and
                              "complaint: BREAK " + tag in str(r),
                              "thread %d's failure is reported as %r; "
                              "schedule %s", i, r, sch)
                        for j in range(len(progs)):
                            if j != i:
                                check("BREAK t%d" % j not in str(r),
                                      "another thread's message")
                    else:
                        check(isinstance(r, Module), "thread %d got %r; "
                              "schedule %s", i, r, sch)
                        compiled(w, r, src, [], 70, "A", [],
                                 "schedule %s" % sch)
        old = os.dup(2)
        t0 = w.traces()
        try:
            n, complete = csched.explore(body, judge, bound=bound,
                                         files=FILES, root=root)
        finally:
            os.dup2(old, 2)
            os.close(old)
        return complete, min(n, 50)


def groups(tier):
    deep = tier == "thorough"
    out = []
    paths = [(), ("A",), ("B", "A"), ("A", "B")]
    cps = [None, "", "@/cudaA", "@/cudaB", "@/absent"]
    nvs = [None, "", "@/cudaC/bin/nvcc", "@/cudaC/bin/nvcc --user 'a b'",
           "\"@/cudaC/bin/nvcc\""]
    bares = [(), ("A",), ("B",)] + ([("A", "B")] if deep else [])
    out.append(Group("environment", [
        (p, c, n, b) for p in paths for c in cps for n in nvs for b in bares],
        environment, "every combination of PATH, CUDA_PATH and NVCC decides "
        "which nvcc runs", "%d x %d x %d x %d" % (
            len(paths), len(cps), len(nvs), len(bares))))
    alpha = ((3, 5), (6, 1), (7, 0), (8, 6))
    devs = [d for n in range(0, 4 if deep else 3)
            for d in itertools.product(alpha, repeat=n)]
    out.append(Group("devices", [
        (d, v, a) for d in devs for v in (7999, 8000, 11020)
        for a in (None, 52)], devices, "every list of devices, versions and "
        "requested architectures", "<= %d devices" % (3 if deep else 2)))
    lines = [l for n in range(0, 5 if deep else 4)
             for l in itertools.product(("E", "U", "x"), repeat=n)]
    lines += [("x", "E", "U", "x", "x"), ("e", "U"), ("E", "u"),
              ("E", "u", "E", "U"), ("E", "", "U"), ("", "E", "U", "")]
    out.append(Group("probe", [
        (l, nl, rc) for l in lines for nl in (True, False) for rc in (0, 1)
        if rc or len(l) < 3], probe, "every output of the probe: its advice "
        "is followed, anything else reported", "<= %d lines of 3 kinds" % (
            4 if deep else 3)))
    ops = ("ok", "warn", "fail", "c", "arch", "named")
    out.append(Group("histories", [
        (h, how) for n in (1, 2, 3) for h in itertools.product(
            ops, repeat=n)
        for how in ("shared", "none", "empty", "tuple")
        if n < 3 or deep or how == "shared"], history,
        "every sequence of compilations: the right code for the right "
        "device, errors reported, nothing left behind", "depth 3"))
    inner = [(), ("0",), ("1",), ("0", "1")]
    single = [(i, k, x) for i in (0, 1) for k in ("ok", "raise", "bad")
              for x in inner]
    chan = [(s,) for s in single] + [("0", s, "0", "1") for s in single]
    chan += [((i, k, (a, "0", s, "1")), "0", "1") for i in (0, 1)
             for k in ("ok", "raise") for a in ("0", "1") for s in single]
    chan += [(s, "0", t, "1") for s in single for t in single] if deep else [
        (s, "0", t, "1") for s in single[::3] for t in single[::2]]
    out.append(Group("channels", chan, channels, "redirections nest, fail "
                     "and are undone", "2 channels, depth 2"))
    pr = [(("ok",), ("ok",)), (("fail",), ("ok",)), (("fail",), ("fail",)),
          (("ok",), ("fail",))]
    if deep:
        pr += [(("fail", "ok"), ("fail",)), (("ok",), ("fail",), ("ok",))]
    out.append(Group("threads", [
        (q, warm, 2 if deep and warm and len(q) == 2 and
         len(q[0]) == 1 else 1, ()) for q in pr for warm in (True, False)],
        threads, "every interleaving of compiling threads",
        "2 threads (3), preemption bound 1 (2), every line"))
    return out
