"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "bounded exhaustive enumeration of band layouts/masks/options on the real operators vs a direct-sum model (full basis of inputs)",
    "C02": "bounded exhaustive enumeration of chunkings and task execution orders of the real graphs",
    "C03": "exhaustive enumeration of conversion schemas on a full input basis, explicit-state search over conversion chains",
    "C04": "stateless model checking: controlled scheduler enumerating interleavings of callbacks and timer thread",
    "C05": "bounded exhaustive enumeration of headers and file patterns vs a reference interpreter",
    "C06": "bounded exhaustive enumeration of chunk lists and limits vs a greedy reference model",
    "C07": "stateless model checking of threads under a controlled scheduler plus exhaustive operation sequences",
    "C08": "fault and crash-point enumeration over every step of the real installer in a scratch tree, plus interleavings",
    "C09": "bounded exhaustive enumeration of programs of the option grammar, package subsets and dtype tuples",
    "C10": "explicit-state exploration of CLEAN minor cycles over all small images vs reference transition system",
    "C11": "bounded exhaustive enumeration of factor shapes on full vector bases vs dense reference",
    "C12": "bounded exhaustive enumeration of regions, splits and placements vs point-set reference model",
    "C13": "bounded exhaustive enumeration of row/time/baseline/flag assignments vs a reference bin automaton",
    "C14": "bounded exhaustive enumeration of flag patterns x column subsets vs reference averages",
    "C15": "bounded exhaustive enumeration of chunkings and task orders of the real graphs",
    "C16": "bounded exhaustive enumeration of input subsets, chunkings, stream modes and task orders vs measurement equation",
    "C17": "bounded exhaustive enumeration of coordinate grids, conventions and layouts vs reference formulae",
    "C18": "bounded exhaustive enumeration of basis inputs, flag patterns, angle grids and chunkings vs reference sums",
    "C19": "bounded exhaustive enumeration of modes, binnings, flags, chunkings and call histories vs reference",
    "C20": "bounded exhaustive enumeration of small calibration problems vs analytic reference",
    "C21": "bounded exhaustive enumeration of spectra and of component-file programs vs reference interpreter",
    "C22": "bounded exhaustive enumeration of positions, kernels and policies vs reference footprint model",
    "C23": "exhaustive enumeration of block/stream counts, graph invariants and all task orders",
    "C24": "exhaustive enumeration of call pairs over the public entry points with shared arguments",
    "C25": "bounded exhaustive enumeration of baselines, wavelengths, factors and image sizes vs defining formula",
    "C26": "bounded exhaustive enumeration of knots, values, end conditions and query points vs dense reference solve",
    "C27": "exhaustive enumeration of launches and thread orders of the generated kernels in an execution model of thread blocks vs defining formulae",
    "C28": "exhaustive enumeration of calls, pairs of calls in one graph and boundary task orders on the real code vs each call computed alone",
    "C29": "exhaustive enumeration of environments, device lists, probe outputs, compilation histories and thread interleavings (preemption bound) on the real code with a recording stand-in for nvcc",
}
NOTE = ("Every case of the finite spaces named in the evidence file is executed on the code in /repo and compared with an "
        "independent reference model; nothing is sampled. Assurance ends at the stated bounds. Kernels that the installed numba can "
        "no longer compile through its removed decorator run interpreted (same Python source).")


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        pid = p["id"]
        if os.path.exists(os.path.join(HERE, "checks", pid + ".py")):
            checks.append({"property": pid, "quick_cmd": "./run.sh %s quick" % pid,
                           "thorough_cmd": "./run.sh %s thorough" % pid,
                           "evidence_file": "evidence/%s.json" % pid,
                           "technique": TECH[pid], "level": "model_checking",
                           "level_note": NOTE})
        else:
            na.append({"property": pid, "reason": "check not built yet"})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks", len(na), "not applicable")


main()
