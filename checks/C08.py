"""C08: cub/trove installation under every fault, crash point and schedule.

The real installer runs in a scratch tree.  Every file system operation,
every network read and every write is one step of the world below; a plan
makes one step fail, makes all writes fail from there on, or stops the
process there.  The steps of every plan are enumerated."""
import builtins
import errno
import hashlib
import importlib
import io
import itertools
import os
import re
import shutil
import sys
import tempfile
import threading
import urllib.error
import urllib.request
import zipfile

import csched
csched.install()

from core import Group, HarnessError, Violation, check, state, transition  # noqa
import africanus                                                # noqa

ASSUMPTIONS = [
    "a stopped process keeps what completed operations wrote; a write in "
    "progress leaves its first half",
    "renaming within a file system is atomic; renaming across raises EXDEV",
    "the genuine archives are replaced by small ones: the SHA1 of exactly "
    "these bytes is reported as the published one"]

LIBS = {
    "cub": dict(mod="africanus.util.cub", fn="cub_dir",
                exc="InstallCubException",
                url="https://github.com/NVlabs/cub/archive/1.8.0.zip",
                sha="836f523a34c32a7e99fba36b30abfe7a68d41d4b",
                top="cub-1.8.0", archive="cub-1.8.0.zip", dir="cub",
                readme=b"# About CUB\n\nCurrent release: v1.8.0 (02/16/2018)\n"),
    "trove": dict(mod="africanus.util.trove", fn="trove_dir",
                  exc="InstallTroveException",
                  url="https://github.com/bryancatanzaro/trove/archive/"
                      "master.zip",
                  sha="183c9ce229b3c0b2afeb808a9f4b07c9d9b9035d",
                  top="trove-master", archive="trove-master.zip",
                  dir="trove", readme=b"# Trove\n\nA gentle vector\n")}
FILES = tuple(csched.REPO + "/africanus/util/%s.py" % n
              for n in ("cub", "trove", "files"))


def content(lib, big=False):
    L = LIBS[lib]
    c = {"LICENSE.TXT": b"free\n" * 8,
         lib + "/a_first.h": b"#pragma once\n",
         lib + "/" + ("cub.cuh" if lib == "cub" else "ptr.h"): b"// main\n",
         "README.md": L["readme"],
         lib + "/util.h": b"// util\n" * 3,
         "test/z_last.cu": b"int main() {}\n"}
    if big:
        c["test/blob.bin"] = bytes((i * 7 + (i >> 8)) & 255 for i in
                                   range(251)) * 9000       # 2.2 MB stored
    return c


def zipped(lib, files, top=None):
    b = io.BytesIO()
    with zipfile.ZipFile(b, "w", zipfile.ZIP_STORED) as z:
        for name, data in files.items():
            z.writestr(zipfile.ZipInfo((top or LIBS[lib]["top"]) + "/" +
                                       name), data)
    return b.getvalue()


_CACHE = {}


def genuine(lib, big):
    if (lib, big) not in _CACHE:
        c = content(lib, big)
        _CACHE[lib, big] = (c, zipped(lib, c))
    return _CACHE[lib, big]


class Crash(BaseException):
    """ the process stops here """


W = None                    # the running world
_real = {}


class World(object):
    def __init__(self, lib, big=False, cross=False):
        self.lib = lib
        self.L = LIBS[lib]
        self.files, self.blob = genuine(lib, big)
        self.cross = cross
        self.served = self.blob
        self.offline = False
        self.root = tempfile.mkdtemp(prefix="c08_", dir="/tmp")
        self.data = self.root + "/share"
        self.tmp = self.root + "/tmp"
        os.mkdir(self.data)
        os.mkdir(self.tmp)
        self.plan = {}          # step -> kind
        self.full = False
        self.dead = False
        self.step = 0
        self.hits = []
        self.requests = 0
        self.escaped = []
        self.mutations = 0
        self.active = False
        self.hook = None

    # directories of the library, as documented by appdirs
    @property
    def base(self):
        return self.data + "/codex-africanus/" + africanus.__version__

    @property
    def target(self):
        return self.base + "/include/" + self.L["dir"]

    @property
    def archive(self):
        return self.base + "/downloads/" + self.L["archive"]

    def at(self, what, writes):
        """ one step of the world; may raise """
        if not self.active:
            return
        if self.dead:
            raise Crash()
        if self.hook is not None:
            self.hook(what)
        k = self.step
        self.step += 1
        transition()
        kind = self.plan.get(k)
        if writes:
            self.mutations += 1
        if kind is None:
            if self.full and writes:
                raise OSError(errno.ENOSPC, "No space left on device")
            return
        self.hits.append((k, kind, what))
        if kind == "dead":
            self.dead = True
            raise Crash()
        if kind == "full":
            self.full = True
            if writes:
                raise OSError(errno.ENOSPC, "No space left on device")
            return
        raise OSError(errno.EIO, "Input/output error")

    def inside(self, path):
        return (path + "/").startswith(self.root + "/")


def _path(p, dir_fd=-1):
    if isinstance(p, int):
        return os.readlink("/proc/self/fd/%d" % p) if p >= 0 else None
    p = os.fsdecode(p)
    if not os.path.isabs(p):
        d = (os.readlink("/proc/self/fd/%d" % dir_fd)
             if isinstance(dir_fd, int) and dir_fd >= 0 else os.getcwd())
        p = os.path.join(d, p)
    return os.path.normpath(p)


def _audit(event, args):
    w = W
    if w is None or not w.active:
        return
    if event == "open":
        p, mode, flags = args
        if isinstance(p, int):
            return
        p = _path(p)
        writes = bool(flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT |
                               os.O_TRUNC | os.O_APPEND))
        if not writes and not w.inside(p):
            return
        paths = [p]
    elif event in ("os.remove", "os.rmdir"):
        paths, writes = [_path(args[0], args[1])], True
    elif event == "os.mkdir":
        paths, writes = [_path(args[0], args[2])], True
    elif event in ("os.rename", "os.link"):
        paths, writes = [_path(args[0], args[2]), _path(args[1], args[3])], \
            True
    elif event == "os.symlink":
        paths, writes = [_path(args[1], args[2])], True
    elif event in ("os.chmod", "os.chown", "os.utime", "os.truncate"):
        paths, writes = [_path(args[0])], True
    elif event in ("os.scandir", "os.listdir"):
        p = _path(args[0]) if args[0] is not None else os.getcwd()
        if not w.inside(p):
            return
        paths, writes = [p], False
    elif event in ("os.system", "subprocess.Popen", "os.exec",
                   "os.posix_spawn", "os.fork", "os.kill",
                   "socket.connect"):
        w.escaped.append((event, args[:1]))
        raise PermissionError(errno.EPERM, "not in the scratch tree")
    else:
        return
    for p in paths:
        if writes and p is not None and not w.inside(p):
            if p in ("/dev/null",):
                return
            w.escaped.append((event, p))
            raise PermissionError(errno.EPERM, "not in the scratch tree", p)
    if event == "os.rename" and w.cross:
        sides = {p.startswith(w.tmp + "/") for p in paths}
        if len(sides) == 2:
            w.at("rename across", True)
            raise OSError(errno.EXDEV, "Invalid cross-device link")
    w.at(event + " " + " ".join(p[len(w.root):] for p in paths), writes)


class Writer(object):
    def __init__(self, f):
        self.__dict__["_f"] = f

    def __getattr__(self, n):
        return getattr(self._f, n)

    def __setattr__(self, n, v):
        setattr(self._f, n, v)

    def __enter__(self):
        self._f.__enter__()
        return self

    def __exit__(self, *a):
        return self._f.__exit__(*a)

    def __iter__(self):
        return iter(self._f)

    def write(self, data):
        try:
            W.at("write", True)
        except BaseException:
            self._f.write(data[:len(data) // 2])
            self._f.flush()
            raise
        n = self._f.write(data)
        self._f.flush()
        return n


def _open(file, mode="r", *a, **kw):
    f = _real["open"](file, mode, *a, **kw)
    w = W
    if (w is not None and w.active and not isinstance(file, int)
            and w.inside(_path(file)) and set(mode) & set("wxa+")):
        return Writer(f)
    return f


class Response(object):
    status = code = 200

    def __init__(self, w):
        self.w = w
        self.b = io.BytesIO(w.served)
        self.headers = {"Content-Length": str(len(w.served))}
        self.closed = False

    def read(self, n=-1):
        self.w.at("network read", False)
        if n is not None and n > 0:
            n = min(n, max(1, (len(self.w.served) + 2) // 3))
        return self.b.read(n)

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)

    def info(self):
        return self.headers

    def geturl(self):
        return self.w.L["url"]

    def getcode(self):
        return 200

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        while True:
            d = self.read(4096)
            if not d:
                return
            yield d


def _urlopen(url, *a, **kw):
    w = W
    if w is None:
        raise HarnessError("network outside a world")
    w.requests += 1
    if not isinstance(url, str):
        url = url.full_url
    w.at("urlopen", False)
    if w.offline:
        raise urllib.error.URLError("no network")
    if url != w.L["url"]:
        raise urllib.error.HTTPError(url, 404, "Not Found", {}, None)
    return Response(w)


class FakeSha(object):
    name = "sha1"
    digest_size = 20
    block_size = 64

    def __init__(self, data=b""):
        self.h = _real["sha1"]()
        self.n = 0
        if data:
            self.update(data)

    def update(self, data):
        data = bytes(data)
        self.n += len(data)
        self.h.update(data)

    def copy(self):
        c = FakeSha()
        c.h, c.n = self.h.copy(), self.n
        return c

    def hexdigest(self):
        d = self.h.hexdigest()
        w = W
        if w is not None and self.n == len(w.blob) and \
                d == _real["sha1"](w.blob).hexdigest():
            return w.L["sha"]
        near = w and getattr(w, "near", None)
        if near and self.n == len(near[0]) and \
                d == _real["sha1"](near[0]).hexdigest():
            return near[1]
        return d

    def digest(self):
        return bytes.fromhex(self.hexdigest())


def _new(name, data=b"", **kw):
    if name.lower().replace("-", "") == "sha1":
        return FakeSha(data)
    return _real["new"](name, data, **kw)


def _sha1(data=b"", **kw):
    return FakeSha(data)


def patch():
    if _real:
        return
    _real.update(open=builtins.open, sha1=hashlib.sha1, new=hashlib.new)
    builtins.open = io.open = _open
    hashlib.sha1 = _sha1
    hashlib.new = _new
    urllib.request.urlopen = _urlopen
    shutil._USE_CP_SENDFILE = False
    sys.addaudithook(_audit)


def restart(w):
    """ a new process: the installer modules are imported afresh """
    for n in ("cub", "trove", "appdirs", "files"):
        sys.modules.pop("africanus.util." + n, None)
        if hasattr(sys.modules.get("africanus.util"), n):
            delattr(sys.modules["africanus.util"], n)
    os.environ["XDG_DATA_HOME"] = w.data
    os.environ["HOME"] = w.root
    os.environ["TMPDIR"] = w.tmp
    tempfile.tempdir = w.tmp
    w.dead = w.full = False
    w.plan = {}
    w.hits = []
    mod = importlib.import_module(w.L["mod"])
    ad = sys.modules["africanus.util.appdirs"]
    if not (w.inside(ad.include_dir) and w.inside(ad.downloads_dir)):
        raise HarnessError("the installer does not use the scratch tree")
    return mod


def tree(top):
    out = {}
    for d, _, fs in os.walk(top):
        for f in fs:
            with _real["open"](os.path.join(d, f), "rb") as h:
                out[os.path.relpath(os.path.join(d, f), top)] = h.read()
    return out


def put(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with _real["open"](path, "wb") as f:
        f.write(data)


SENTINELS = ("share/other.txt", "tmp/not_yours/file",
             "{base}/include/othertool/x.h", "{base}/downloads/other.zip",
             "{base}/precious")

BROKEN = {
    "noheader": lambda lib, c: {k: v for k, v in c.items()
                                if not k.endswith("cub.cuh")},
    "noreadme": lambda lib, c: {k: v for k, v in c.items()
                                if k != "README.md"},
    # the folder of a half unpacked or mistaken copy
    "readmedir": lambda lib, c: dict(
        {k: v for k, v in c.items() if k != "README.md"},
        **{"README.md/index": b"Current release: v1.8.0 (02/16/2018)\n"}),
    "headerdir": lambda lib, c: dict(
        {k: v for k, v in c.items() if not k.endswith("cub.cuh")},
        **{"cub/cub.cuh/index": b"x"}),
    "oldversion": lambda lib, c: dict(
        c, **{"README.md": b"Current release: v1.7.4 (09/20/2017)\n",
              "stale/gone.h": b"old"}),
    "emptyreadme": lambda lib, c: dict(c, **{"README.md": b""}),
}


def prepare(w, init):
    for s in SENTINELS if init != "fresh" else ():
        put(w.root + "/" + s.format(base=os.path.relpath(w.base, w.root)),
            b"keep " + s.encode())
    if init in ("fresh", "sentinels"):
        pass
    elif init == "cached":
        put(w.archive, w.blob)
    elif init == "badcache":
        put(w.archive, w.blob[:-1])
    elif init == "emptycache":
        put(w.archive, b"")
    elif init == "installed":
        for k, v in w.files.items():
            put(w.target + "/" + k, v)
    elif init == "emptydir":
        os.makedirs(w.target)
    elif init in BROKEN:
        for k, v in BROKEN[init](w.lib, w.files).items():
            put(w.target + "/" + k, v)
    else:
        raise HarnessError(init)
    return snapshot(w)


def snapshot(w):
    """ what is not the library's own """
    t = tree(w.root)
    own = (os.path.relpath(w.target, w.root) + "/",)
    arc = os.path.relpath(w.archive, w.root)
    return {k: v for k, v in t.items()
            if not k.startswith(own) and k != arc}


def leftovers(w, before):
    now = snapshot(w)
    lost = [k for k in before if now.get(k) != before[k]]
    check(not lost, "files that are not the library's were changed: %s", lost)
    extra = [k for k in now if k not in before]
    # directories too
    known = {"", "share", "tmp"}
    for k in list(before) + [os.path.relpath(w.archive, w.root),
                             os.path.relpath(w.target, w.root) + "/x"]:
        while k:
            k = os.path.dirname(k)
            known.add(k)
    own = os.path.relpath(w.target, w.root)
    for d, ds, _ in os.walk(w.root):
        r = os.path.relpath(d, w.root)
        if r == own:
            ds[:] = []
            continue
        if r != "." and r not in known:
            extra.append(r + "/")
    return extra


def attempt(w, mod):
    """ -> ("ok", path) | ("error", exc) | ("dead",) """
    w.step = 0
    w.active = True
    try:
        return "ok", getattr(mod, w.L["fn"])()
    except Crash:
        return ("dead",)
    except Violation:
        raise
    except Exception as e:
        if w.dead:
            return ("dead",)
        return "error", e
    finally:
        w.active = False


def complete(w, path, when):
    check(os.path.normpath(path) == w.target, "%s: returned %s", when, path)
    got = tree(w.target)
    if got != w.files:
        miss = sorted(set(w.files) - set(got))
        extra = sorted(set(got) - set(w.files))
        diff = sorted(k for k in set(got) & set(w.files)
                      if got[k] != w.files[k])
        raise Violation("%s: the library is reported as installed in %s but "
                        "missing %s, extra %s, differing %s" % (
                            when, w.L["dir"], miss, extra, diff))


def sane_error(w, mod, e):
    ok = (getattr(mod, w.L["exc"]), OSError, shutil.Error,
          zipfile.BadZipFile)
    check(isinstance(e, ok), "a failed step is reported as %s: %s",
          type(e).__name__, e)


class scratch(object):
    def __init__(self, *a, **kw):
        self.a, self.kw = a, kw

    def __enter__(self):
        global W
        patch()
        self.env = {k: os.environ.get(k) for k in
                    ("XDG_DATA_HOME", "HOME", "TMPDIR")}
        self.td = tempfile.tempdir
        W = self.w = World(*self.a, **self.kw)
        return self.w

    def __exit__(self, et, e, tb):
        global W
        self.w.active = False
        W = None
        for k, v in self.env.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        tempfile.tempdir = self.td
        root = self.w.root
        if root.startswith("/tmp/c08_"):
            shutil.rmtree(root, ignore_errors=True)
        if self.w.escaped and et is None:
            raise Violation("touches outside its folders: %s" %
                            (self.w.escaped[:3],))


# -- single and double faults ------------------------------------------------
def history(w, before, faults, same):
    """ faults: [(step, kind), ...], one per attempt; -> False when the last
    step was not reached """
    mod = restart(w)
    for i, (k, kind) in enumerate(faults):
        w.plan = {k: kind}
        w.hits = []
        n0 = w.requests
        r = attempt(w, mod)
        hit = list(w.hits)
        if not hit:
            check(r[0] == "ok", "attempt %d without a fault failed: %s", i,
                  r[-1])
            complete(w, r[1], "attempt %d" % i)
            return False
        state()
        where = "fault %s at step %d (%s)" % (kind, k, hit[0][2])
        if r[0] == "ok":
            # a fault may be harmless (removal of temporary files), but then
            # the copy is complete
            complete(w, r[1], where)
        elif r[0] == "error":
            sane_error(w, mod, r[1])
        if r[0] != "dead" and kind == "io":
            x = leftovers(w, before)
            cleaning = re.match(r"os\.(remove|rmdir|scandir|listdir|open)|"
                                r"open ", hit[0][2])
            if x and not cleaning:
                raise Violation("%s: temporary files are left: %s" %
                                (where, x))
        if r[0] == "dead" or kind == "full" or not same:
            mod = restart(w)
        del n0
    w.plan = {}
    n0, m0 = w.requests, w.mutations
    r = attempt(w, mod)
    check(r[0] == "ok", "the attempt after %s fails: %s", faults, r[-1])
    complete(w, r[1], "after %s" % (faults,))
    quiet(w, mod, "after recovery from %s" % (faults,))
    return True


def quiet(w, mod, when):
    """ an installed copy is used as it is, also by a new process """
    for again in (mod, None):
        if again is None:
            again = restart(w)
        n0, m0 = w.requests, w.mutations
        r = attempt(w, again)
        check(r[0] == "ok" and w.requests == n0 and w.mutations == m0,
              "%s: the installed copy is not used as it is (%s, %d requests)",
              when, r, w.requests - n0)
        complete(w, r[1], when)


def single(case):
    lib, init, cross, kind, same = case
    k = 0
    while True:
        with scratch(lib, cross=cross) as w:
            before = prepare(w, init)
            if not history(w, before, [(k, kind)], same):
                x = leftovers(w, before)
                check(not x, "temporary files are left: %s", x)
                break
        k += 1
        check(k < 1000, "the installation does not end")
    return k


def double(case):
    lib, init, cross, kinds, same, part = case
    k1 = part
    n = 0
    while True:
        k2 = 0
        end = False
        while True:
            with scratch(lib, cross=cross) as w:
                before = prepare(w, init)
                more = history(w, before, [(k1, kinds[0]), (k2, kinds[1])],
                               same)
                n += 1
                end = not w.hits and not more and k2 == 0 and \
                    w.requests <= 1 and not more
            if not more:
                break
            k2 += 1
        if end and k1 > 200 or k1 > 400:
            break
        # was k1 reached at all?
        with scratch(lib, cross=cross) as w:
            prepare(w, init)
            mod = restart(w)
            w.plan = {k1 + 8: kinds[0]}
            attempt(w, mod)
            reached = bool(w.hits)
        if not reached:
            break
        k1 += 8
    return n


# -- what is served ----------------------------------------------------------
def served_variants(w, what):
    b = w.blob
    if what == "genuine":
        return b
    if what == "html":
        return b"<html>502 Bad Gateway</html>"
    if what == "empty":
        return b""
    if what == "otherzip":
        c = dict(w.files)
        c["LICENSE.TXT"] = b"evil"
        return zipped(w.lib, c)
    if what == "othername":
        return zipped(w.lib, w.files, top=w.L["top"] + "x")
    kind, i, n = what.split(":")
    if kind == "near":
        # another archive, whose hash differs in one digit only
        c = dict(w.files)
        c["LICENSE.TXT"] = b"evil"
        data, i, sha = zipped(w.lib, c), int(i), w.L["sha"]
        w.near = data, sha[:i] + "%x" % (int(sha[i], 16) ^ 1) + sha[i + 1:]
        return data
    pos = (len(b) - 1) * int(i) // int(n)
    if kind == "flip":
        return b[:pos] + bytes([b[pos] ^ 1]) + b[pos + 1:]
    if kind == "cut":
        return b[:pos]
    if kind == "extra":
        return b + b"\0" * (int(i) + 1)
    if kind == "dup":
        return b[:pos] + b[pos:pos + 64] + b[pos:]
    raise HarnessError(what)


def serve(case):
    lib, big, cached, what = case
    with scratch(lib, big=big) as w:
        before = prepare(w, "sentinels")
        data = served_variants(w, what)
        bad = data != w.blob
        if cached:
            put(w.archive, data)
        else:
            w.served = data
        mod = restart(w)
        r = attempt(w, mod)
        if cached or not bad:
            check(r[0] == "ok", "fails: %s", r[-1])
            complete(w, r[1], "cached archive %s" % what)
            check(w.requests == (1 if bad or not cached else 0),
                  "%d downloads with a %s archive cached", w.requests,
                  "bad" if bad else "genuine")
            check(not leftovers(w, before), "temporary files are left")
            return "installed"
        check(r[0] == "error", "a corrupted download is accepted")
        check(isinstance(r[1], getattr(mod, w.L["exc"])),
              "a corrupted download is reported as %s", type(r[1]))
        msg = str(r[1])
        actual = _sha1(data).hexdigest()
        check(w.L["sha"] in msg and actual in msg,
              "the error does not name both hashes")
        m = re.search(r"expected\s+hash of\s+([0-9a-f]{40})", msg)
        check(m is None or m.group(1) == w.L["sha"],
              "the error names %s as the expected hash, which is the one of "
              "the corrupted download", m and m.group(1))
        check(not os.path.exists(w.target), "the error leaves an install")
        check(not leftovers(w, before), "temporary files are left")
        w.served = w.blob
        for same in (True, False):
            if not same:
                mod = restart(w)
            r = attempt(w, mod)
            check(r[0] == "ok", "retry fails: %s", r[-1])
            complete(w, r[1], "retry")
            check(w.requests == 2, "%d downloads after a retry", w.requests)
        quiet(w, mod, "after a retry")
        return "rejected"


def states(case):
    """ every initial state, on and off line """
    lib, init, offline = case
    with scratch(lib) as w:
        before = prepare(w, init)
        w.offline = offline
        mod = restart(w)
        r = attempt(w, mod)
        usable = init == "installed" or (
            lib == "trove" and init in BROKEN and init not in (
                "noreadme", "readmedir"))
        if usable:
            check(r[0] == "ok" and w.requests == 0 and w.mutations == 0,
                  "an installed copy is not used as it is: %s", r)
            return "used"
        if offline and init != "cached":
            check(r[0] == "error", "reported as installed: %s", r)
            sane_error(w, mod, r[1])
            w.offline = False
            r = attempt(w, mod)
        check(r[0] == "ok", "fails: %s", r[-1])
        complete(w, r[1], init)
        check(not leftovers(w, before), "temporary files are left")
        quiet(w, mod, "after install")
        return "installed"


def hash_file(case):
    size, seed = case
    with scratch("cub") as w:
        restart(w)
        from africanus.util.files import sha_hash_file
        data = (bytes((i * seed + (i >> 8)) & 255 for i in range(4096)) *
                (size // 4096 + 1))[:size]
        p = w.root + "/f"
        put(p, data)
        check(sha_hash_file(p) == _real["sha1"](data).hexdigest(),
              "SHA1 of %d bytes is wrong", size)
        if size:
            put(p, data[:-1] + bytes([data[-1] ^ 128]))
            check(sha_hash_file(p) != _real["sha1"](data).hexdigest(),
                  "SHA1 ignores the last byte of %d", size)
    return size


# -- threads -----------------------------------------------------------------
def threads(case):
    lib, nthreads, nfail, init, bound, root = case
    box = {}

    with scratch(lib) as w0:
        before = prepare(w0, init)
        mod0 = restart(w0)      # importable
        del mod0
        # states of the module are reset per execution by a restart
        base = tree(w0.root)

        def body(rt):
            # back to the initial state
            for d in ("share", "tmp"):
                shutil.rmtree(w0.root + "/" + d)
                os.mkdir(w0.root + "/" + d)
            for k, v in base.items():
                if k.startswith(("share", "tmp")):
                    put(w0.root + "/" + k, v)
            mod = restart(w0)
            w0.requests = 0
            w0.active = True
            left = [nfail]
            box["res"] = res = {}

            def hook(what):
                if what == "urlopen":
                    rt.point()
                    if left[0] > 0:
                        left[0] -= 1
                        raise urllib.error.URLError("down")
                elif what.startswith("os.rename"):
                    rt.point()
            w0.hook = hook

            def user(i):
                def run():
                    try:
                        p = getattr(mod, w0.L["fn"])()
                        res[i] = ("ok", p, tree(p) == w0.files)
                    except (OSError, getattr(mod, w0.L["exc"])) as e:
                        res[i] = ("error", str(e))
                return run
            for i in range(nthreads):
                rt.spawn("user%d" % i, user(i))

        def judge(rt):
            w0.active = False
            w0.hook = None
            if rt.aborting is not None:
                raise Violation("threads cannot finish: %s" % rt.aborting)
            res = box["res"]
            check(len(res) == nthreads, "%d of %d calls returned", len(res),
                  nthreads)
            errs = [r for r in res.values() if r[0] == "error"]
            oks = [r for r in res.values() if r[0] == "ok"]
            need = init != "installed"
            check(len(errs) == (min(nfail, nthreads) if need else 0),
                  "%d calls failed for %d failed downloads: %s", len(errs),
                  nfail, errs)
            check(all(r[2] and os.path.normpath(r[1]) == w0.target
                      for r in oks),
                  "a call returned before the copy was complete")
            check(w0.requests == (len(errs) + (1 if oks else 0)
                                  if need else 0),
                  "%d downloads for %d failures", w0.requests, len(errs))
            x = leftovers(w0, before)
            check(not x, "temporary files are left: %s", x)

        n, _ = csched.explore(body, judge, bound=bound, files=FILES,
                              root=root)
    return min(n, 99)


def groups(tier):
    thorough = tier == "thorough"
    libs = ("cub", "trove")
    inits = {"cub": ("fresh", "sentinels", "cached", "badcache",
                     "emptycache", "emptydir", "installed") + tuple(BROKEN),
             "trove": ("fresh", "sentinels", "cached", "badcache",
                       "emptycache", "emptydir", "installed", "noreadme",
                       "readmedir")}
    out = [Group("initial-states",
                 [(lib, i, off) for lib in libs for i in inits[lib]
                  for off in (False, True)],
                 states, "every starting state leads to a complete copy or "
                 "an error", "2 libraries, all initial states, on/off line")]
    out.append(Group(
        "single-fault",
        [(lib, i, cross, kind, same) for lib in libs for i in inits[lib]
         for cross in (False, True) for kind in ("io", "dead", "full")
         for same in ((True, False) if kind == "io" else (False,))],
        single, "fault at every step: error or complete copy; the next "
        "attempt succeeds; nothing else touched; no temporary files",
        "every step of an installation x {one failing operation, stop, disk "
        "full from there} x same or new process x same or other file system"))
    dinits = ("fresh", "oldversion", "badcache") if thorough else ("fresh",)
    kinds = (("io", "io"), ("io", "dead"), ("dead", "io"), ("dead", "dead"),
             ("full", "dead"))
    out.append(Group(
        "double-fault",
        [(lib, i, cross, kk, same, part)
         for lib in libs for i in dinits if i in inits[lib]
         for cross in ((False, True) if thorough else (True,))
         for kk in (kinds if thorough else (("dead", "dead"), ("io", "io")))
         for same in ((True, False) if kk[0] == "io" else (False,))
         for part in range(8)],
        double, "two faulty attempts in a row, every pair of steps",
        "all pairs of steps of two consecutive attempts"))
    n = 64 if thorough else 16
    whats = (["genuine", "html", "empty", "otherzip", "othername"] +
             ["%s:%d:%d" % (k, i, n) for k in ("flip", "cut")
              for i in range(n + 1)] +
             ["extra:%d:%d" % (i, n) for i in range(2)] +
             ["dup:%d:%d" % (i, n) for i in range(0, n, 4)])
    out.append(Group(
        "served-data",
        [(lib, big, cached, w) for lib in libs for big in (False, True)
         for cached in (False, True) for w in whats] +
        [(lib, False, cached, "near:%d:40" % i) for lib in libs
         for cached in (False, True) for i in range(40)],
        serve, "only the genuine archive is installed, from the network or "
        "the download folder",
        "all variants: every %dth position flipped / cut, of small and 2 MB "
        "archives" % n))
    out.append(Group(
        "hash", [(s, seed) for seed in (1, 7) for base in
                 (0, 4096, 2**16, 2**20, 2**21, 3 * 2**20)
                 for s in ((0, 1) if base == 0 else
                           (base - 1, base, base + 1))],
        hash_file, "hash covers the whole file", "sizes around the block "
        "boundaries up to 3 MiB"))
    tc = [(lib, nt, nf, init, b, ())
          for lib in libs
          for nt, nf, b in (((2, 0, 2), (2, 1, 2), (2, 2, 1), (3, 1, 1),
                             (3, 0, 1)) +
                            (((2, 0, 3), (2, 1, 3), (3, 1, 2))
                             if thorough else ()))
          for init in ("fresh", "installed", "noreadme")]
    out.append(Group(
        "threads", tc, threads, "concurrent first requests install once, "
        "all callers get a complete copy",
        "2-3 threads, all interleavings of lines of the installer within "
        "the preemption bound (1-3)"))
    return out
