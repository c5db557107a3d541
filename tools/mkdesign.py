"""Write DESIGN.md: prose below, enumerated spaces from the check modules,
the table of planted changes from seeded/*/meta.json."""
import ast
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(HERE, "vlib"), os.path.join(HERE, "checks")]
import shim                                                   # noqa
shim.install()

HEAD = """# Model checking codex-africanus

## Approach

codex-africanus is a library of numerical kernels (gridding, averaging, the
measurement equation, calibration, deconvolution), chunked (dask) forms of
them, and some stateful infrastructure (progress reporting, code caches, an
installer of header libraries).  Every property is decided by *exhaustive
enumeration of a bounded space of executions of the real code*:

* **State and schedule spaces** (C04, C07, C08): the real code runs under a
  controlled scheduler (`vlib/csched.py`: one thread runs at a time, hand-over
  at every source line / lock operation / builder step; stateless depth-first
  exploration of all schedules up to a preemption bound) or under a fault
  injector which makes each file-system / network step in turn fail, tear, or
  stop the process (C08).
* **Task-graph schedule spaces** (C02, C15-C23): chunked results are computed
  by `vlib/dsched.py`, which runs the graph's tasks one by one in every
  topological order (up to a stated cap per graph, above which the boundary
  orders - depth first, breadth first, reversed - are run), with and without
  dask's graph optimisation (fusion), for every chunking of the axes.
* **Transition systems** (C10 CLEAN minor cycles, C13 binning, C21 the
  component-list language): a small reference model generates every behaviour
  within the bound; the real code is replayed against each of them and must
  end in a state the model reaches (this *is* the conformance check: each model
  trace is executed on the implementation; evidence field
  `traces_validated_against_impl`).
* **Configuration/input spaces** (the rest): all combinations of band layouts,
  masks, flag patterns, schemas, optional-argument subsets, memory layouts,
  precisions, chunkings within stated bounds, each executed on the real code
  and compared with an independent reference model written from the
  documentation (explicit sums, dense matrices, point sets).
* **Histories** (C24, and history groups of C07, C08, C10, C12, C19): all
  sequences of operations up to a depth on shared objects.

Nothing is sampled and no solver is involved: a check executes *every* case of
the spaces listed below or reports `exhaustive: false`.  Linear operators are
decided on a full basis plus generic values; generic values are deterministic
and chosen without accidental coincidences so that each element, weight or
index of an expression is distinguishable.

### Engine

`run.sh <ID> [quick|thorough|--replay FILE]` -> `vlib/main.py` ->
`vlib/core.py`.  Groups of cases run in forked workers; a case that crashes
the interpreter or does not return (240 s) is a violation.  A violating case is
written to `replays/<ID>-k.json` and reruns with `--replay`.  `VERIF_REPO`
points the machinery at another tree, `VERIF_GROUP=regex` selects groups,
`VERIF_MODE=jit` replays the interpreted kernels compiled.

### Running code the installed tools cannot import

The installed numba (0.59) has no `generated_jit` and numpy has no
`np.object`; half of the package (rime, dft, calibration, averaging, model,
perleypolyhedron) cannot even be imported natively, so the repository's own
tests of it fail here.  `vlib/shim.py` restores those names with their
documented meaning, so that the *unmodified* sources execute: in `interp` mode
the generator is called with the numba types of its arguments, as numba did,
and CPython executes the implementation it returns; in `jit` mode the
implementation is compiled by the installed numba.  Quick checks use `interp`
(no compile time; Python raises on out-of-range indices where compiled code
would corrupt memory, so it is the stricter semantics); the repository's own
tests were run under the shim in both modes to validate it.  Semantics that
only exist compiled (integer wrap-around, negative index wrap-around under
`nogil` parallel loops) are outside the quick tier.

No GPU, CuPy, JAX or nifty_gridder is installed: the CUDA kernels run in an
execution model of thread blocks (C27), the JAX phase delay with numpy standing
in for jax.numpy, and the nifty wrappers with `vlib/fake_nifty.py`, a recording
stand-in with the module's accumulation semantics.

### Judging behaviour, not text

Checks call public entry points and look at results, raised error types,
graph structure and files.  They do not look at source text, private names or
call counts.  Where an implementation is free (which of several equal peaks,
which of two defining pairs, order of reductions, names of temporary files),
the oracle accepts every allowed behaviour.

"""

WHY = {
 "C01": "Oracle: the direct Fourier sum in double precision per band (`wref.py`); adjointness checked on all basis elements. Tests use uniform bands and random data.",
 "C02": "Oracle: the in-memory operator; every composition of rows x band-aligned channel chunks x task orders; declared shape/chunks/dtype compared with the computed ones; inputs compared after each order.",
 "C03": "Oracle: the definition table of the Stokes parameters written independently; every ordered schema; every chunking; round trip; errors for undetermined outputs.",
 "C04": "Real `EstimatingProgressBar` with its reporter thread under the controlled scheduler, virtual clock, in-memory sink. Every interleaving of task callbacks and reporter up to the preemption bound; every printed report must be explained by some prefix of the history; no exception, no deadlock, thread ends.",
 "C05": "Oracle: linear WCS grid definition and a small pattern-language reference. All axis orders, signs, units, crpix positions; patterns from all short token strings.",
 "C06": "Oracle: conservation of sums, maximality of greedy merge, limits; all chunk tuples and limits up to the bound; all launch shapes.",
 "C07": "Real `memoize_on_key`/singleton code under all schedules of 2-3 threads at line (thorough: bytecode) granularity with preemption bound; all short histories of keys; builders that raise.",
 "C08": "Fault enumeration as described in the module: every step x every fault kind x archive contents x prior states, crash-then-rerun histories, two concurrent installers. Destructive effects stay in a scratch tree; the file-system calls are observed by an audit hook.",
 "C09": "Oracle: Python literals and a reference of the documented option grammar; all token strings up to a length; all subsets of available/missing/broken packages.",
 "C10": "Reference transition system, non-deterministic at ties; small images over a finite value alphabet, every budget, gain and threshold. float32 runs use few iterations (rounding grows).",
 "C11": "Oracle: numpy.kron and dense kernels, basis vectors; all factor shapes up to the bound.",
 "C12": "Oracle: sets of integer pixels; all small polygons/boxes, masks, splits and stitches; all short operation histories on a facet.",
 "C13": "Reference binning automaton over all small (baseline x time) occupancy patterns, interval patterns, flags and bin lengths.",
 "C14": "Oracle: explicit per-bin sums; all flag cubes, all subsets of optional columns, layouts, precisions.",
 "C15": "Oracle: in-memory averaging applied chunk by chunk and concatenated; all chunkings and task orders.",
 "C16": "Oracle: explicit Jones chain per row/channel/source; all subsets of optional terms x correlation shapes x time/antenna index patterns x chunkings x orders x stream counts.",
 "C17": "Oracle: textbook formulae; grids of positions including edges, poles, outside the beam; every Noll index.",
 "C18": "Oracle: explicit sums and rotation matrices; basis images; all flag patterns; inverse pairs over a sphere grid.",
 "C19": "Oracle: explicit 2x2 algebra per mode (diag-diag, diag, full), all antenna pair/time-bin layouts, flag patterns, chunkings, histories.",
 "C20": "Oracle: dense Jacobian from the analytic derivative; solver compared with its normal equations and its fixed points.",
 "C21": "Oracle: polynomials evaluated term by term; grammar-generated component files (valid and invalid) against a reference interpreter; least squares residual tests for spi fits.",
 "C22": "Oracle: footprint of a one-dimensional kernel per axis, explicit rotation matrices; every sub-cell position class; facets and chunkings.",
 "C23": "Structural graph invariants (each block consumed once, closedness, length) plus values under all orders.",
 "C24": "Histories of calls on shared argument objects: all single calls x memory layouts, all ordered pairs (thorough: triples over the plain entry points); bitwise comparison of arguments, earlier and repeated results; caller writes into earlier results.",
 "C25": "Oracle: the defining formula evaluated in float/quantity form.",
 "C26": "Oracle: dense solve of the defining conditions.",
 "C27": "The CUDA source the library generates is compiled with g++ against `vlib/cuda/emu.h` (threads are fibers; barriers and warp collectives hand over; four thread orders, among them opposite ones, so that each conflicting pair of accesses between two synchronisations happens in both orders; shared memory is poisoned; indices are bounds-checked; buffers have guards) behind a numpy-backed stand-in for cupy. Oracle: the reference formulae of C03, C16, C17.",
 "C28": "The alphabet is the set of dask wrappers, each with a base call and variants in one argument, option, chunking or the precision. Inputs record when they are read. Every variant alone (two boundary task orders, optimised and not, block by block, pickled, composed), every ordered pair of variants of a function and every ordered pair of functions in one graph; thorough: all variants of every two functions together. Oracle: the values of each call computed alone, which the other properties decide.",
 "C29": "nvcc and cupy are absent: a script records its arguments, answers the device query and writes arguments and source as the 'object'; a module loads that file. A fresh copy of the module per world. All environments, device lists, probe outputs of up to 3 (4) lines, histories of depth 3 over six operations, nested redirections, and all interleavings (every line, preemption bound 1, thorough 2) of compiling threads. Oracle: the stated precedence, and equality of options, descriptors, directories and error channel before and after. The code had never run under Python 3: nine defects were repaired.",
}

TAIL = """
## Decisions on the meaning of properties (and corrected false alarms)

These came up as violations during construction and were judged to be too
strong a reading of the property (or a wrong oracle), and corrected:

* C01/C02: frequencies must ascend within a band (the gridding engine demands
  it); image and uvw axes must be single chunks.
* C03: when the inputs hold two defining pairs of an output, either is right.
* C08: the temporary file names and the number of steps are free; only the
  visible installation states are judged.
* C10: the centre of the psf is element (n-1, n-1); ties may be broken freely.
* C12: regions need a non-zero area; SplitBox parts smaller than two pixels are
  rejected; PadBox of odd sizes keeps the centre pixel.
* C15: columns of one call must be chunked alike.
* C16: tolerance follows the lowest precision among the inputs.
* C20: rows of one antenna with itself carry no phase information; excluded.
* C21: natural defaults only for omitted optional columns.
* C22: kernel fractions are truncated, so positions within 1/64 cell of a
  rounding boundary are excluded; `Q_FROM_RLLR` does not exist; the cell is in
  arcseconds although one docstring says degrees.
* C25: the documentation states the inequality the other way round from the
  (sensible) code.
* C26: at least three knots.
* C27: inputs of mixed precision may be refused by the prediction kernel (a
  compile error, not a wrong result); inputs are contiguous.
* C24: a fitted spline keeps references to its knots by design.

## Findings

All genuine defects found so far were repaired by `fix:` commits in /repo; they
are listed with their commits in `known_findings.txt` (`fixed:` lines, which
suppress nothing).  There is no unrepaired finding.

## Planted changes

Each was written from a property's text and the code, verified to pass the
stable tests and to fail its demonstration.  `tools/seed.py` builds and
verifies one; `tools/mutate.py` (development only) additionally runs generic
mutants of a source file through the checks, and the survivors were reviewed
by hand (equivalent, or the check was strengthened).

"""


def count(g):
    c = g.cases() if callable(g.cases) else g.cases
    return sum(1 for _ in c)


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE,
                                                      "properties.jsonl"))]
    out = [HEAD, "## Properties\n"]
    for p in props:
        i = p["id"]
        out.append("\n### %s %s\n" % (i, p["title"]))
        out.append("Anchors: %s.\n" % ", ".join(p["anchors"]["files"]))
        out.append(WHY.get(i, "") + "\n")
        try:
            m = importlib.import_module(i)
        except ImportError:
            out.append("No check yet.\n")
            continue
        out.append("Enumerated (quick tier):\n")
        quick = m.groups("quick")
        for g in quick:
            out.append("* `%s` (%d cases): %s. Bound: %s." % (
                g.name, count(g), " ".join(g.rule.split()),
                " ".join(str(g.bounds).split())))
        deep = {g.name: count(g) for g in m.groups("thorough")}
        more = ["`%s` %d" % (n, c) for n, c in deep.items()
                if c != {g.name: count(g) for g in quick}.get(n)]
        if more:
            out.append("\nThorough tier cases: %s." % ", ".join(more))
        if getattr(m, "ASSUMPTIONS", None):
            out.append("\nAssumptions: %s." % "; ".join(m.ASSUMPTIONS))
        out.append("")
    out.append(TAIL)
    out.append("| change | property | needs | caught by |\n|---|---|---|---|")
    sd = os.path.join(HERE, "seeded")
    for d in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, d, "meta.json")))
        out.append("| %s | %s | %s | %s |" % (
            d, m["property"], m["needs"].replace("|", "/"),
            CAUGHT.get(d, m["property"])))
    with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
        f.write("\n".join(out) + "\n")


CAUGHT = {}
if __name__ == "__main__":
    main()
