import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "checks"))


def main():
    prop = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    rest = sys.argv[2:]
    rep = None
    if rest and rest[0] in ("quick", "thorough"):
        tier = rest[0]
    elif rest and rest[0] == "--replay":
        rep = rest[1]
    import shim
    shim.install()
    import core
    try:
        module = importlib.import_module(prop)
    except Exception as e:
        # the check modules only import code of /repo at this point: a module
        # which no longer imports, or lost a public name, cannot provide what
        # the property promises
        tb = traceback.extract_tb(e.__traceback__)
        if any("/africanus/" in f.filename for f in tb) or \
                isinstance(e, ImportError):
            os.makedirs(os.path.join(core.VERIF, "replays"), exist_ok=True)
            path = os.path.join(core.VERIF, "replays", prop + "-import.txt")
            with open(path, "w") as f:
                traceback.print_exc(file=f)
            traceback.print_exc()
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        raise
    if rep:
        return core.replay(prop, module, rep)
    return core.run_check(prop, module, tier, seed)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    if 'fake_cupy' in sys.modules:
        sys.modules['fake_cupy'].clean()
    os._exit(rc)
