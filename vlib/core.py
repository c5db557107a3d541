"""Bounded exhaustive exploration engine.

A check module (``checks/<ID>.py``) defines

    PROPERTY   id of the property
    groups(tier) -> [Group, ...]

A Group is one finite space: an iterable of cases (nested tuples of plain
literals) and a function executed on *every* case of the space.  The function
drives the real code under /repo, compares it with a reference model, and

  * raises Violation(...) when the property does not hold,
  * returns a (hashable) outcome, used to count the distinct behaviours seen.

Cases run in worker processes: a case which crashes the interpreter or never
returns is itself a violation (the code under test did that), not an error of
the check.
"""
import ast
import json
import multiprocessing as mp
import os
import re
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

STALL_SECONDS = 240      # one case must finish within this time
MAX_VIOLATIONS = 12


class Violation(Exception):
    def __init__(self, msg, key=None):
        Exception.__init__(self, msg)
        self.key = key


class HarnessError(Exception):
    """ the harness is wrong, not the code under test """


class Group(object):
    def __init__(self, name, cases, fn, rule, bounds, weight=1):
        self.name = name
        self.cases = cases
        self.fn = fn
        self.rule = rule
        self.bounds = bounds
        self.weight = weight


# ---------------------------------------------------------------------------
# counters, written by the case functions of the running worker
COUNT = {"transitions": 0, "states": 0, "schedules": 0}


def transition(n=1):
    """ n steps of the real code were executed """
    COUNT["transitions"] += n


def state(n=1):
    """ n distinct states (beyond the case itself) were visited """
    COUNT["states"] += n


def schedule(n=1):
    COUNT["schedules"] += n


def call(fn, *args, **kw):
    """ call the code under test, counting the step """
    COUNT["transitions"] += 1
    return fn(*args, **kw)


def fail(msg, key=None):
    raise Violation(msg, key)


def check(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def raises(fn, *args, **kw):
    """ returns the exception raised by the code under test, or None """
    exc = kw.pop("_exc", Exception)
    COUNT["transitions"] += 1
    try:
        fn(*args, **kw)
    except exc as e:
        return e
    return None


# ---------------------------------------------------------------------------
def load_known(prop):
    """ known findings of this property: list of (regex on group/params/message, text) """
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.rstrip("\n")
            if not line.startswith("known: "):
                continue
            m = re.match(r"known: property=(\S+) match=/(.*)/ :: (.*)$", line)
            if not m:
                raise HarnessError("bad line in known_findings.txt: " + line)
            if m.group(1) == prop:
                out.append((re.compile(m.group(2), re.S), m.group(3)))
    return out


def _run_case(group, params):
    """ -> (kind, message, outcome) """
    try:
        outcome = group.fn(params)
        return "ok", None, outcome
    except Violation as v:
        return "violation", str(v), None
    except HarnessError:
        raise
    except MemoryError:
        raise
    except (Exception, SystemExit) as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "/africanus/" in f.filename]
        loc = ""
        if where:
            f = where[-1]
            loc = " at %s:%s in %s" % (f.filename.split("/africanus/")[-1],
                                       f.lineno, f.name)
        return ("violation", "unexpected %s: %s%s\n%s" % (
            type(e).__name__, e, loc,
            "".join(traceback.format_exception(type(e), e,
                                               e.__traceback__)[-6:])), None)


def _worker(k, groups, all_cases, order, batch, counter, cur, stop, outdir,
            known):
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    out = open(os.path.join(outdir, "w%d.jsonl" % k), "w")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)          # chatter of the code under test
    stats = [dict(evals=0, outcomes={}) for _ in groups]

    def flush_stats():
        out.write(json.dumps({"stats": [
            {"evals": s["evals"], "outcomes": list(s["outcomes"].items())}
            for s in stats], "count": COUNT}) + "\n")
        out.flush()

    n = len(order)
    while not stop.value:
        with counter.get_lock():
            start = counter.value
            counter.value = min(n, start + batch)
        if start >= n:
            break
        for i in range(start, min(n, start + batch)):
            if stop.value:
                break
            g, ci = order[i]
            params = all_cases[g][ci]
            cur[2 * k] = i + 1
            cur[2 * k + 1] = int(time.time())
            try:
                kind, msg, outcome = _run_case(groups[g], params)
            except HarnessError as e:
                out.write(json.dumps({"harness": traceback.format_exc()})
                          + "\n")
                out.flush()
                os._exit(3)
            if kind == "ok":
                stats[g]["evals"] += 1
                key = repr(outcome)[:200]
                oc = stats[g]["outcomes"]
                if key not in oc and len(oc) < 50000:
                    oc[key] = ci
            else:
                text = "%s %r %s" % (groups[g].name, params, msg)
                for rx, desc in known:
                    if rx.search(text):
                        out.write(json.dumps({"known": desc}) + "\n")
                        break
                else:
                    out.write(json.dumps({"violation": [i, g, ci, msg]})
                              + "\n")
                    out.flush()
    cur[2 * k] = 0
    flush_stats()
    out.close()
    os._exit(0)


def run_check(prop, module, tier, seed, workers=None):
    t0 = time.time()
    groups = module.groups(tier)
    only = os.environ.get("VERIF_GROUP")
    if only:
        groups = [g for g in groups if re.search(only, g.name)]
    all_cases = [list(g.cases() if callable(g.cases) else g.cases)
                 for g in groups]
    for g, cs in zip(groups, all_cases):
        if not cs:
            raise HarnessError("group %s of %s is empty" % (g.name, prop))
        if len(set(map(repr, cs))) != len(cs):
            raise HarnessError("group %s of %s lists a case twice" %
                               (g.name, prop))
    # groups in the order given, cases simplest first
    order = [(g, ci) for g in range(len(groups))
             for ci in range(len(all_cases[g]))]
    # heavy groups get interleaved so that the workers stay busy
    workers = workers or int(os.environ.get("VERIF_WORKERS", "8"))
    workers = max(1, min(workers, len(order)))
    batch = max(1, min(16, len(order) // (workers * 8)))
    deadline = t0 + (float(os.environ.get("VERIF_BUDGET", "0")) or
                     (780 if tier == "quick" else 6 * 3600))
    outdir = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    ctx = mp.get_context("fork")
    counter = ctx.Value("l", 0)
    stop = ctx.Value("b", 0)
    cur = ctx.Array("l", 2 * workers, lock=False)
    known = load_known(prop)
    known_hit = {}
    procs = []
    sys.stdout.flush()
    sys.stderr.flush()
    for k in range(workers):
        p = ctx.Process(target=_worker, args=(k, groups, all_cases, order,
                                              batch, counter, cur, stop,
                                              outdir, known))
        p.start()
        procs.append(p)

    extra = []          # violations seen by the parent: crashes, stalls
    capped = False
    dead = set()
    while len(dead) < workers:
        time.sleep(0.05)
        now = time.time()
        for k, p in enumerate(procs):
            if k in dead:
                continue
            if not p.is_alive():
                p.join()
                dead.add(k)
                if p.exitcode not in (0, 3) and cur[2 * k]:
                    i = cur[2 * k] - 1
                    g, ci = order[i]
                    extra.append([i, g, ci, "the process running this case "
                                  "was ended by exit code %s" % p.exitcode])
                    stop.value = 1
                continue
            if cur[2 * k] and now - cur[2 * k + 1] > STALL_SECONDS:
                i = cur[2 * k] - 1
                g, ci = order[i]
                extra.append([i, g, ci, "case did not finish within %d s"
                              % STALL_SECONDS])
                stop.value = 1
                os.kill(p.pid, signal.SIGKILL)
        if now > deadline and not stop.value:
            capped = True
            stop.value = 1
        if not stop.value and _count_violations(outdir) >= MAX_VIOLATIONS:
            stop.value = 1
    stopped = bool(stop.value)

    violations, harness = list(extra), []
    evals = [0] * len(groups)
    outcomes = [dict() for _ in groups]
    total = {"transitions": 0, "states": 0, "schedules": 0}
    for k in range(workers):
        path = os.path.join(outdir, "w%d.jsonl" % k)
        if not os.path.exists(path):
            continue
        for line in open(path):
            try:
                rec = json.loads(line)
            except ValueError:
                continue
            if "violation" in rec:
                violations.append(rec["violation"])
            elif "known" in rec:
                d = rec["known"]
                known_hit[d] = known_hit.get(d, 0) + 1
            elif "harness" in rec:
                harness.append(rec["harness"])
            elif "stats" in rec:
                for g, s in enumerate(rec["stats"]):
                    evals[g] += s["evals"]
                    for key, ci in s["outcomes"]:
                        outcomes[g].setdefault(key, ci)
                for c in total:
                    total[c] += rec["count"][c]
    for k in range(workers):
        path = os.path.join(outdir, "w%d.jsonl" % k)
        if os.path.exists(path):
            os.unlink(path)
    os.rmdir(outdir)
    if harness:
        raise HarnessError(harness[0])

    fresh = sorted(violations)

    ncases = sum(len(c) for c in all_cases)
    done = sum(evals) + len(violations) + sum(known_hit.values())
    samples = []
    for g, grp in enumerate(groups):
        cs = all_cases[g]
        pick = sorted(set([0, len(cs) // 2, len(cs) - 1]))[:3]
        samples.append({"group": grp.name, "cases": len(cs),
                        "executed": evals[g],
                        "distinct_outcomes": len(outcomes[g]),
                        "rule": grp.rule, "bounds": grp.bounds,
                        "examples": [repr(cs[i])[:300] for i in pick],
                        "outcome_examples": list(outcomes[g])[:3]})
    cov = {
        "states": done + total["states"],
        "transitions": total["transitions"],
        "traces_validated_against_impl": sum(evals),
        "evaluations": done,
        "distinct_nontrivial": sum(len(o) for o in outcomes),
        "rule": "every case of every listed finite space is executed on the "
                "code in /repo and compared with the reference model; cases "
                "count as distinct when the observed outcome differs",
        "samples": samples,
        "exhaustive": bool(not stopped and done == ncases),
    }
    if total["schedules"]:
        cov["schedules"] = total["schedules"]
    if capped:
        cov["cap"] = "time budget reached: %d of %d cases executed" % (
            done, ncases)
    ev = {"property": prop, "tier": tier, "seed": seed,
          "level": "model_checking", "coverage": cov,
          "assumptions": getattr(module, "ASSUMPTIONS", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)

    for desc in known_hit:
        print("KNOWN-FINDING: property=%s %s" % (prop, desc))
    for g, grp in enumerate(groups):
        print("  %-40s cases=%d executed=%d distinct_outcomes=%d" % (
            grp.name, len(all_cases[g]), evals[g], len(outcomes[g])))
    print("%s tier=%s cases=%d states=%d transitions=%d exhaustive=%s "
          "wall=%.1fs" % (prop, tier, done, cov["states"],
                          cov["transitions"], cov["exhaustive"],
                          ev["wall_s"]))
    if not fresh:
        return 0
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)
    for n, (i, g, ci, msg) in enumerate(fresh[:5]):
        path = os.path.join(rdir, "%s-%d.json" % (prop, n))
        with open(path, "w") as f:
            json.dump({"property": prop, "tier": tier,
                       "group": groups[g].name,
                       "params": repr(all_cases[g][ci]), "message": msg,
                       "replay": "./run.sh %s --replay %s" % (prop, path)},
                      f, indent=1)
        print("  %s %r: %s" % (groups[g].name, all_cases[g][ci],
                               msg.strip()[:700]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def _count_violations(outdir):
    n = 0
    for name in os.listdir(outdir):
        with open(os.path.join(outdir, name)) as f:
            for line in f:
                if line.startswith('{"violation"'):
                    n += 1
    return n


def replay(prop, module, path):
    rec = json.load(open(path))
    params = ast.literal_eval(rec["params"])
    for tier in (rec["tier"], "quick", "thorough"):
        for g in module.groups(tier):
            if g.name == rec["group"]:
                kind, msg, outcome = _run_case(g, params)
                print(kind, msg or outcome)
                if kind == "violation":
                    print("VIOLATION property=%s replay=%s" % (prop, path))
                    return 1
                return 0
    raise HarnessError("unknown group " + rec["group"])
