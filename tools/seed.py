"""Plants one bug in a scratch copy and keeps it under seeded/ when confirmed.

usage: seed.py SPEC.py   where SPEC.py defines
    id, property, needs, what_it_breaks, edits = [(file, old, new), ...], demo (python source),
    optionally files = [paths under vlib which the demo needs beside it]
"""
import json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def stable_pass(cwd):
    """ run the pytest files of the stable tests in the scratch copy """
    base = json.load(open("/opt/vp/BASELINE.json"))
    ids = base["stable"]
    files = sorted({i.split("::")[0] for i in ids})
    files = [f.replace(".", "/") + ".py" for f in files]
    r = sh("/opt/venv/bin/python -B -m pytest -q -n 8 -p no:cacheprovider -rA --tb=no %s" % " ".join(files), cwd=cwd,
           env=dict(os.environ, PYTHONPATH=cwd))
    ok = {l.split(" ", 1)[1].split(" - ")[0].replace(".py::", "::") for l in r.stdout.splitlines() if l.startswith("PASSED ")}
    ok = {o.split("::", 1)[0].replace("/", ".") + "::" + o.split("::", 1)[1] for o in ok}
    return [i for i in ids if i not in ok], r.stdout[-600:]


def main(spec):
    ns = {}
    exec(open(spec).read(), ns)
    rc = tempfile.mkdtemp(prefix="seed-") + "/repo"
    sh("cp -a /repo %s" % rc)
    out = os.path.join(VERIF, "seeded", ns["id"])
    os.makedirs(out, exist_ok=True)
    try:
        for f, old, new in ns["edits"]:
            p = os.path.join(rc, f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        d = sh("git -C %s diff" % rc).stdout
        open(out + "/patch.diff", "w").write(d)
        open(out + "/demo.py", "w").write(ns["demo"].lstrip("\n"))
        for f in ns.get("files", ()):
            src = os.path.join(VERIF, "vlib", f)
            if os.path.isdir(src):
                shutil.copytree(src, os.path.join(out, f), dirs_exist_ok=True)
            else:
                shutil.copy(src, out)
        open(out + "/demo.sh", "w").write(
            '#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\nVERIF_REPO="$PWD" PYTHONPATH="$PWD" exec /opt/venv/bin/python -B "$here/demo.py"\n')
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": ns["property"], "needs": ns["needs"], "what_it_breaks": ns["what_it_breaks"]},
                  open(out + "/meta.json", "w"), indent=1)
        a = sh("bash %s/demo.sh" % out, cwd="/repo")
        b = sh("bash %s/demo.sh" % out, cwd=rc)
        print("demo unpatched", a.returncode, "patched", b.returncode, b.stdout.strip()[-200:])
        if a.returncode or not b.returncode:
            print(a.stdout[-1500:])
            return 1
        missing, tail = stable_pass(rc)
        print("stable tests missing:", len(missing), missing[:3], tail[-150:] if missing else "")
        r = sh("VERIF_REPO=%s %s/run.sh %s quick" % (rc, VERIF, ns["property"]), cwd=VERIF)
        print("CHECK", ns["property"], "exit", r.returncode, "|", r.stdout[-400:])
        return 0
    finally:
        shutil.rmtree(os.path.dirname(rc))


sys.exit(main(sys.argv[1]))
