"""Which harness decides which property, how it is built, and what its evidence means."""
import os
import subprocess
import sys

import run
from run import CheckError, Result, build_cpp, run_shards

# property -> dict(src, flavour, watchdog, rule, require, assumptions)
CPP = {}
# the same for the Python properties: dict(rule, require, assumptions); see pychecks.py
PY = {}


def cpp(pid, rule, require=(), src=None, flavour="plain", watchdog=300, extra=(), link=(), uses_model=True,
        assumptions=(), also=(), setup=()):
    CPP[pid] = dict(src=src or [pid.lower() + ".cpp"], flavour=flavour, watchdog=watchdog, rule=rule,
                    require=list(require), extra=extra, link=link, uses_model=uses_model,
                    assumptions=list(assumptions), also=list(also), setup=list(setup))


REF = "reference model in /verif/harness/model.cpp (long double, own SO(3) through quaternions) states the documented formulas"

cpp("P01", "one factor on fresh variables per case (all 18 factor types in turn, options and regimes drawn); "
           "non-trivial: the residual was compared with the reference in at least one state; distinct: hash of the factor, "
           "its measurement and the variable values", assumptions=[REF])
cpp("P02", "one factor per case, Jacobian blocks compared with 6th-order long-double differences of the reference residual "
           "under fresh, reused and poisoned output buffers and all constant patterns; distinct: hash of the case",
    assumptions=[REF])
cpp("P03", "one variable per case driven through a random history of all its mutators; after every step the state is compared "
           "with the reference step and the invariants are evaluated; distinct: hash of type, operation and resulting value",
    assumptions=[REF])
cpp("P04", "random rotation vectors, rotation matrices and unit vectors, two thirds near 0, near pi or at branch thresholds; "
           "distinct: hash of the inputs (counted up to 20000 per shard)", assumptions=[REF],
    require=["log-near-0", "log-near-pi", "log-mid", "inverse-jacobian"])
cpp("P05", "one variable with a random history per case, cloned, driven in lockstep and then apart; distinct: hash of type and the "
           "states reached", require=["lockstep", "independence"])
cpp("P06", "even cases: self-test of a random healthy graph, then with one injected Jacobian fault at a time; odd cases: numerical "
           "Jacobian of one factor against the reference derivative; distinct: hash of the specification", assumptions=[REF],
    require=["healthy-pass", "numeric-compared", "numeric-throw"] + ["fault:" + k for k in (
        "wrong-entry", "nan-entry", "infinite-entry", "extra-column", "extra-row", "empty-block", "missing-block", "extra-block",
        "nonempty-constant-block")])
cpp("P07", "one finalized random graph per case, a random interleaving of value changes and evaluations, each compared with the "
           "factors' own blocks; distinct: hash of graph, values and kind of evaluation",
    require=["residual", "residual-into", "dense", "sparse", "both", "print", "value-change", "constant-moved-by-user", "re-finalized"])
cpp("P08", "one growing graph per case; every evaluation of an outdated structure must be refused and every successful finalize is "
           "compared with a graph built from nothing; distinct: hash of content, state and sizes",
    require=["refused-never-finalized", "refused-changed", "refused-failed-finalize", "compared-with-fresh", "optimized-both",
             "finalize-fails:missing free variable", "finalize-fails:fewer residuals than unknowns"])


cpp("P09", "one graph per case grown in a random interleaved order with hostile ids and duplicate insertions; lists, lookups and "
           "placements are checked along the way; distinct: hash of content and constants at each finalize",
    require=["duplicate-variable", "duplicate-factor", "placements"])
cpp("P10", "one graph per case driven through reads, writes, increments and wrong sizes, each compared with the same operation on "
           "clones of the variables; distinct: hash of graph, values and operation",
    require=["write-back", "write", "increment", "wrong-size-graph", "wrong-size-variable"])
cpp("P11", "one graph with many constants (some outside the graph, some off the truth) per case; snapshots of all constants around "
           "every operation, and the optimization compared with one whose constants were baked into the factors; distinct: hash of "
           "graph and resulting cost",
    require=["optimize-gn", "optimize-lm", "covariance", "increment", "vector-write", "numerical-jacobian", "self-test",
             "faulty-optimize", "compared-with-baked", "compared-with-baked-moved", "covariance-compared", "covariance-refused"])
cpp("P12", "one Levenberg-Marquardt run (or two) per case with probe factors recording every evaluation, 40% with an injected "
           "residual or Jacobian fault; the recorded history is checked offline; distinct: hash of graph, accepted/rejected counts "
           "and final damping",
    require=["accepted", "rejected", "max-lambda-reached", "fault-residual-throw", "fault-residual-nan", "fault-residual-inf",
             "fault-residual-huge", "fault-jacobian-throw", "fault-jacobian-nan"])
cpp("P13", "one problem per case (started at, near, far from or absurdly far from the optimum), one or three runs with random settings; "
           "distinct: hash of graph, run, final cost and status",
    require=["GN", "LM", "status:SUCCESS", "status:DIVERGED", "status:SINGULAR_HESSIAN", "status:ILL_CONDITIONED", "status:FAILED",
             "nothing-to-do", "from-optimum", "converged-linear"], assumptions=[REF])
cpp("P14", "one random linear graph per case solved by Gauss-Newton or Levenberg-Marquardt and compared with a dense long-double QR "
           "solve; distinct: hash of graph and method", require=["gn", "lm", "GenericPrior", "GenericBetween", "LinearVelocity"],
    assumptions=[REF])
cpp("P15", "one well-posed problem per case (all factor kinds; noise-free or noisy; start near the truth, confirmed by a plain "
           "Gauss-Newton run on the reference model), solved by both methods; distinct: hash of graph, method and final cost",
    require=["GN-noisy", "LM-noisy", "GN-noise-free", "LM-noise-free", "stationary-checked", "agreed-with-reference", "free-plane"]
    + ["factor:" + f for f in ("GenericPrior", "GenericBetween", "LinearVelocity", "PosePositionPrior", "PoseOrientationPrior",
                               "RotationPrior", "PosePositionBetween", "PoseOrientationBetween", "BearingObservation",
                               "InverseRangeBearing", "BearingProjection2D", "BearingObservation2D", "RangeBearing2D", "Pose2DPrior",
                               "Pose2DBetween", "Plane", "PlanePrior", "CoordinateTransform")], assumptions=[REF])
cpp("P16", "odd cases: a problem with factors taken away, kept if the reference Hessian has a clean null space; even cases: one injected "
           "fault (6 kinds, either method, once or persistent) at a chosen evaluation; then the cause is removed and the same objects must "
           "reproduce a fresh run; distinct: hash of graph and fault",
    require=["undetermined-gn", "undetermined-lm", "recovered:undetermined"] +
    [k + m for k in ("residual-throw", "residual-nan", "residual-inf", "jacobian-throw", "jacobian-nan", "jacobian-inf") for m in (":GN", ":LM")] +
    ["recovered:" + k for k in ("residual-throw", "residual-nan", "residual-inf", "jacobian-throw", "jacobian-nan", "jacobian-inf")],
    assumptions=[REF])
cpp("P17", "two thirds: one to four rounds of setup/optimize/prepare on the same optimizer with every answer compared with the inverse of "
           "the long-double information matrix; one third: problems with a null space; distinct: hash of graph, round and estimate",
    require=["compared:" + k for k in ("Generic", "Landmark", "Rotation", "Pose", "Pose2D", "InverseRange")] +
    ["constant-refused", "before-optimize", "after-setup", "not-prepared-since", "prepared-before-optimize", "undetermined-refused", "round-fresh",
     "round-again"], assumptions=[REF])
cpp("P18", "one problem per case solved twice: as it is, and with ids relabelled, insertion order permuted, verbose output, the world moved "
           "rigidly or all sigmas multiplied; distinct: hash of both problems and the variant",
    require=[v + m for v in ("ids", "order", "logging", "world-frame", "sigma-scale") for m in (":GN", ":LM")] + ["covariances"])
cpp("P19", "one session (build, evaluate, optimize, covariances, writes) per case, repeated in the process and in a second process with "
           "another heap filling, digests compared bit by bit; then 2-6 threads with a session each under ThreadSanitizer; distinct: session digest",
    require=["repeated", "digests-compared-between-processes", "overlapped"], setup=["vg", "tsan"])
cpp("P20", "one random history of 10-60 public API calls per case over up to three graphs and two optimizers, valid and refused ones "
           "mixed, under ASan+LSan+UBSan with Eigen's and libstdc++'s assertions; distinct: hash of calls and results", flavour="asan",
    require=["refused", "copy-graph", "drop-graph", "constant-toggle", "self-test", "print", "covariance", "wrong-size", "duplicate",
             "numeric", "optimize", "clone", "valgrind:histories"], setup=["asan", "vg"])
cpp("P21", "one kernel, residual and set of Jacobian blocks per case; residual transformation against long double, Jacobian transformation "
           "against 6th-order central differences of it; distinct: hash of the inputs and results",
    require=["within", "beyond", "zero", "jacobian-within", "jacobian-beyond", "columns-compared", "empty-block"])
cpp("P22", "one random history of start/stop/reset/read calls on up to three stopwatches (copies included) per case, with simulated clocks "
           "(the wall clock is also set now and then); every hundredth case on the real clock with brackets; distinct: hash of the readings",
    require=["read-running", "read-stopped", "redundant-start", "redundant-stop", "reset-while-running", "wall-clock-changed", "real-clock-read"],
    uses_model=False)
PY["P23"] = dict(rule="one random program per case (a graph of any variables and factors, 6-22 calls), run against the C++ library and through "
                       "the Python module with random argument forms (positional, keyword, defaulted; lists, views, other layouts); every answer, "
                       "exception and message compared; distinct: hash of calls and answers",
                 require=["defaults", "type-error", "default-argument", "keyword-argument", "model-residual", "optimize", "covariance-valid", "clone",
                          "limits", "so3", "detailed_factor_test", "refused:finalize_structure", "refused:add_variable"] +
                 ["constructed:" + k for k in (
                     "PoseVariable", "LandmarkVariable", "GenericVariable", "RotationVariable", "InverseRangeVariable", "PlaneVariable",
                     "Pose2DVariable", "BearingObservationFactor", "GenericPriorFactor", "InverseRangeBearingFactor", "GenericBetweenFactor",
                     "LinearVelocityFactor", "PosePositionPriorFactor", "PoseOrientationPriorFactor", "PosePositionBetweenFactor",
                     "PoseOrientationBetweenFactor", "RotationPriorFactor", "BearingProjectionFactor2D", "PlaneFactor", "PlanePriorFactor",
                     "BearingObservationFactor2D", "RangeBearingFactor2D", "Pose2DPriorFactor", "Pose2DBetweenFactor", "CoordinateTransformFactor")],
                 assumptions=[REF, "the module is rebuilt from /repo's binding source with plain g++ flags, outside /repo"])
PY["P24"] = dict(rule="one random history per case of creating, filling, handing out, dropping (single references, halves, whole kinds, cycles) and "
                       "using Python objects, with the module and Python's allocator under AddressSanitizer; all arrays obtained so far compared "
                       "with copies after every drop, change, finalize and optimization; distinct: hash of the calls",
                 require=["drop", "handed-out", "only-one-remains", "fill", "finalized", "setup", "optimized",
                          "array:FactorGraph.compute_full_residual_vector", "array:FactorGraph.sparse_jacobian", "array:PlaneVariable.unit_vector",
                          "array:RotationVariable.dcm_AB", "array:SparseOptimizer.estimate_covariance", "written:FactorGraph.residual",
                          "written:InverseRangeVariable.bearing_W", "written:RotationVariable.rotation"],
                 assumptions=["CPython's reference counting and collector, numpy and pybind11 as installed"])
PY["P30"] = dict(rule="one class, method, function or enumeration of the stubs per case: the calls, argument kinds, defaults, results and refusals the "
                       "stubs promise are generated from the parsed stubs and tried on the module; distinct: hash of signature and call form",
                 require=["structure", "enum-members", "python-functions", "abstract", "defaults", "keyword-calls", "positional-calls",
                          "factor-variables", "results", "unknown-id", "known-id", "graph-defaults"] +
                 ["refusal:" + k for k in ("missing", "extra", "unknown", "class", "none", "shape", "text", "twice")] +
                 ["form:" + k for k in ("np-int", "np-float", "list", "tuple", "fortran", "strided", "read-only", "single", "column")],
                 assumptions=["CPython, numpy, scipy and pybind11 as installed"])
PY["P25"] = dict(rule="one random graph per case (3D and 2D poses and landmarks, other variables, every factor type, hostile layouts), plotted one to "
                       "four times before and after finalizing, optimizing and changing values, with random options; every artist on the axes compared "
                       "with the expected drawing, every value, statistic and covariance compared before and after; distinct: hash of the drawings",
                 require=["plot2d", "plot3d", "plot-covariance", "rendered", "optimized", "set-up-only", "finalized", "arrows2d", "arrows3d", "regions",
                          "line:bearing", "line:bearing2", "line:rangebearing", "line:between", "points:3D Poses", "points:2D Poses",
                          "points:3D Landmarks", "points:2D Landmarks"],
                 assumptions=["matplotlib 3.6's artist attributes describe what is drawn"])
cpp("P26", "one to three runs per case with random settings (method, learning rate, damping, tolerances, iteration limit) and probe "
           "factors recording every evaluation; each visited estimate is compared with the step an independent long-double solution of "
           "the normal equations asks for; distinct: hash of graph, run and final state",
    require=["GN", "LM", "gn-steps", "learning-rate-visible", "lm-accepted", "lm-nothing-accepted", "lambda-visible-first", "lambda-visible-later",
             "lambda-visible-after-rejection", "max-lambda-visible", "stopped-on-step", "stopped-on-residual", "stopped-on-iterations",
             "followed-to-the-end", "same-settings-again", "new-settings", "verbose"])
cpp("P27", "all reports of a random graph, before and after up to three logged optimizer runs on a simulated clock, captured, parsed and "
           "compared with values obtained otherwise; distinct: hash of graph, iterations and final residual",
    require=["print:" + k for k in ("Generic", "Landmark", "Rotation", "Pose", "Pose2D", "Plane", "InverseRange")] +
            ["near-zero-columns", "rank-full", "rank-deficient", "condition-compared", "matrices-compared", "factor-test-passed",
             "factor-test-failed", "covariance:constant", "covariance:invalid", "covariance:printed", "log:LM", "log:GN", "timed-again",
             "iteration-summaries"])
cpp("P28", "in turn: factor evaluations counted in every graph and optimizer call of a random problem; graphs of five shapes built, optimized "
           "and marginalised at two sizes with all allocations counted; the same random round of calls repeated with the bytes in use recorded; "
           "distinct: hash of problem and plan",
    require=["scaling:" + k for k in ("chain", "grid", "planar", "spatial", "star")] + ["steady", "optimize-gn", "optimize-lm", "prepare-covariances"] +
            ["steady-op:%d" % k for k in range(12)], flavour="cov",
    assumptions=["malloc and free of the C library are the only source of heap memory (interposed in the monitor)"])
cpp("P29", "two thirds: a pool of up to five graphs over one set of variables and factors, created from each other by copying, moving and assigning "
           "at random points of their histories, then changed, finalized, optimized and destroyed independently, each checked against its own "
           "record and the factors' blocks; one third: a variable and a factor copied and assigned; distinct: hash of problem and history",
    require=["copy-constructed", "copy-assigned", "move-constructed", "move-assigned", "self-assigned", "assigned-to-moved-from", "of-finalized", "of-changed",
             "of-never-finalized", "refused", "evaluated", "optimized", "destroyed", "variable-copied-and-assigned", "factor-copied-and-assigned"])
cpp("P31", "half: a bearing factor (five kinds in turn) with the landmark at, very near or behind the sensor, residual and Jacobian compared with closed "
           "forms; a quarter: an angular error near half a turn; the rest: the kink of distance scaling and whole graphs in which one "
           "measurement cannot be linearised; distinct: hash of factor and values", assumptions=[REF],
    require=["refused", "saturated-at-camera", "saturated-behind", "jacobian-compared", "plane-kink", "plane-kink-compared", "graph-refused:dense",
             "graph-refused:sparse", "graph-refused:both", "optimizer-refused", "graph-saturated", "recovered"] +
            [k + ":at-sensor" for k in ("BearingObservation", "BearingObservation2D", "RangeBearing2D")] +
            [k + x for k in ("BearingObservation", "InverseRangeBearing", "BearingObservation2D", "RangeBearing2D") for x in (":below-limit", ":tiny", ":small")] +
            [k + ":half-turn-compared" for k in ("PoseOrientationPrior", "RotationPrior", "PoseOrientationBetween", "Pose2DPrior", "Pose2DBetween", "BearingObservation2D", "RangeBearing2D")])
#END-CPP

# property -> (technique, level note) for the manifest
_N = "no violation on the executions counted in the evidence file; inputs are generated, not enumerated"
TECH = {
    "P01": ("runtime monitor: residuals checked online against an independent long-double reference model", _N),
    "P02": ("runtime monitor: Jacobian blocks checked against high-order differences of the reference residual", _N),
    "P03": ("runtime monitor: state invariants and step-by-step reference over random mutator histories", _N),
    "P04": ("runtime monitor: exponential/logarithm laws checked against a long-double reference, biased to branch regions", _N),
    "P05": ("runtime monitor: lockstep and divergence comparison of clone and original over random histories", _N),
    "P06": ("runtime monitor with fault injection: self-test verdict and state before/after, faulty user factors", _N),
    "P07": ("runtime monitor: assembled residual/Jacobians against the factors' own blocks over call interleavings", _N),
    "P08": ("runtime monitor: history checker of the finalize protocol, differential against a freshly built graph", _N),
    "P09": ("runtime monitor: lists, lookups and placements against a shadow graph under hostile ids and duplicates", _N),
    "P10": ("runtime monitor: vector reads/writes/increments against per-variable clones; wrong sizes with state snapshots", _N),
    "P11": ("runtime monitor: state snapshots of constants around every operation; differential against baked-in constants", _N),
    "P12": ("runtime monitor: recorded evaluation trace checked offline against the accept/reject specification, fault injection", _N),
    "P13": ("runtime monitor: reported statistics and status against recomputed costs before and after every run", _N),
    "P14": ("runtime monitor: estimates against an independent dense long-double least-squares solve", _N),
    "P15": ("runtime monitor: estimates against the ground truth and an independent long-double Gauss-Newton; gradient at the result", _N),
    "P16": ("runtime monitor with fault injection: status, estimates and work after singular problems and faulty factors; recovery differential", _N),
    "P17": ("runtime monitor: covariances against the inverse of an independent long-double information matrix; staleness over call histories", _N),
    "P18": ("runtime monitor: metamorphic comparison of paired executions (ids, order, logging, world frame, sigma scale)", _N),
    "P19": ("runtime monitor: bit comparison of repeated sessions across processes and heaps; ThreadSanitizer on concurrent sessions", _N),
    "P20": ("AddressSanitizer, LeakSanitizer, UndefinedBehaviorSanitizer and library assertions and valgrind memcheck over random API histories", _N),
    "P21": ("runtime monitor: kernel results against the documented transformation and its numerical derivative", _N),
    "P22": ("runtime monitor: elapsed() against the exact sum of intervals on an interposed, simulated clock", _N),
    "P23": ("runtime monitor: differential execution of random programs through the Python module and the C++ library", _N),
    "P24": ("AddressSanitizer on the Python module over random object-lifetime histories; runtime monitor on returned arrays", _N),
    "P25": ("runtime monitor: drawn artists against the expected drawing; graph and optimizer state before and after", _N),
    "P26": ("runtime monitor: recorded evaluation trace compared step by step with an independent executable model of the documented method", _N),
    "P27": ("runtime monitor: captured text of every report parsed and compared with recomputed values, simulated clock", _N),
    "P28": ("runtime monitor: counting factors, compiler-inserted basic-block counters (-fsanitize-coverage) and an interposed allocator observe evaluations, work, bytes in use and peaks", _N),
    "P29": ("runtime monitor: shadow record of every graph in a pool of copies, compared with all observable state", _N),
    "P30": ("runtime monitor: calls, results and refusals generated from the parsed type stubs, observed on the module", _N),
    "P31": ("runtime monitor: residuals, Jacobians and refusals at the edges of the factors' domains checked against closed forms", _N),
#END-TECH
}


def ALL():
    return sorted(list(CPP) + list(PY))


def run_p19(pid, tier, seed):
    """The same sessions in two processes whose heaps are filled differently, then concurrent sessions under TSan."""
    c = CPP[pid]
    w = c["watchdog"] * (8 if tier == "thorough" else 1)
    exe = build(pid, "vg")  # (without Eigen's NaN initialisation: an uninitialised read shows the heap's filling)
    rs = []
    for fill, arena in (("85", "1"), ("170", "8")):
        rs.append(run_shards([exe], seed, tier, w, env_extra={"VP_MODE": "det", "MALLOC_PERTURB_": fill, "MALLOC_ARENA_MAX": arena,
                                                              "VP_PAD": "x" * int(fill) * 7}))
    a, b = rs
    if a.cov != b.cov and not a.viols and not b.viols:
        a.viols.append({"case": -1, "key": "processes-differ",
                        "msg": "%d of %d session digests differ between two processes" % (len(a.cov ^ b.cov) // 2, len(a.cov))})
    a.counts["digests-compared-between-processes"] = len(a.cov & b.cov)
    a.viols += b.viols
    a.evals += b.evals
    t = run_shards([build(pid, "tsan")], seed, tier, w, env_extra={"VP_MODE": "threads"}, nsh=4)
    a.merge(t)
    return a, c


def run_p20(pid, tier, seed):
    """ASan/LSan/UBSan on many histories; valgrind memcheck (uninitialised data) on a few hundred others."""
    res, c = run_cpp(pid, tier, seed)
    vg = ["valgrind", "-q", "--error-exitcode=97", "--exit-on-first-error=yes", "--fullpath-after=", "--track-origins=no", "--leak-check=no"]
    w = c["watchdog"] * (8 if tier == "thorough" else 1)
    v = run_shards(vg + [build(pid, "vg")], seed + 104729, tier, w, cases=4000 if tier == "thorough" else 240)
    v.counts = {"valgrind:" + k: n for k, n in v.counts.items()}
    res.merge(v)
    return res, c


def build(pid, flavour=None):
    c = CPP[pid]
    return build_cpp(c["src"], flavour or c["flavour"], c["extra"], c["link"], c["uses_model"])


def run_cpp(pid, tier, seed):
    c = CPP[pid]
    exe = build(pid)
    res = run_shards([exe], seed, tier, c["watchdog"] * (8 if tier == "thorough" else 1))
    if tier == "thorough":
        # the quick workload again with another seed under address and undefined-behaviour sanitizers
        for fl in c["also"] or (["asan"] if c["flavour"] == "plain" else []):
            r2 = run_shards([build(pid, fl)], seed + 7919, "quick", c["watchdog"] * 8)
            r2.counts = {fl + ":" + k: v for k, v in r2.counts.items()}
            res.merge(r2)
    return res, c


def run(pid, tier, seed):
    if pid == "P19":
        return run_p19(pid, tier, seed)
    if pid == "P20":
        return run_p20(pid, tier, seed)
    if pid in PY:
        import pychecks
        return pychecks.run(pid, tier, seed), PY[pid]
    if pid in CPP:
        return run_cpp(pid, tier, seed)
    raise CheckError("unknown property " + pid)


def replay(pid, seed, case, tier):
    if pid in PY:
        import pychecks
        return pychecks.replay(pid, seed, case, tier)
    exe = build(pid)
    env = dict(os.environ)
    env.update(sys.modules["run"].ENV)
    return subprocess.run([exe, "--seed", str(seed), "--tier", tier, "--case", str(case)], env=env).returncode


def setup():
    for pid in CPP:
        for fl in CPP[pid]["setup"] or [CPP[pid]["flavour"]]:
            build(pid, fl)
    if PY:
        import pychecks
        pychecks.setup()
