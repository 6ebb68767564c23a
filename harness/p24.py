"""P24: Python objects stay valid whatever is dropped in which order, and arrays are snapshots. Random histories of creating,
handing out, dropping and using Python objects, with the extension and the interpreter's allocator under AddressSanitizer."""
import ctypes
import gc
import os
import sys

import numpy as np

import pyvp
import factorama as F


libc = ctypes.CDLL(None)
NULL = os.open(os.devnull, os.O_WRONLY)


class Quiet:
    """What the library prints goes nowhere."""

    def __enter__(self):
        libc.fflush(None)
        self.save = os.dup(1)
        os.dup2(NULL, 1)

    def __exit__(self, *a):
        libc.fflush(None)
        os.dup2(self.save, 1)
        os.close(self.save)


def n_cases(thorough):
    return 36000 if thorough else 3000


class SubPose(F.PoseVariable):
    """A Python subclass carries its own attributes."""

    def __init__(self, *a):
        super().__init__(*a)
        self.tag = "tag%d" % a[0]


GETTERS = {
    "PoseVariable": ["value", "pos_W", "rot_CW", "dcm_CW"], "LandmarkVariable": ["value", "pos_W"], "GenericVariable": ["value"],
    "RotationVariable": ["value", "dcm_AB", "rotation"], "InverseRangeVariable": ["value", "pos_W", "origin_pos_W", "bearing_W"],
    "PlaneVariable": ["value", "unit_vector"], "Pose2DVariable": ["value", "pos_2d", "dcm_2d"],
    "BearingObservationFactor": ["bearing_C_obs"], "InverseRangeBearingFactor": ["bearing_C_obs"], "BearingProjectionFactor2D": ["bearing_C_obs"],
}
GRAPHGET = ["compute_full_residual_vector", "compute_full_jacobian_matrix", "compute_sparse_jacobian_matrix", "jacobian", "sparse_jacobian",
            "residual", "get_variable_vector"]


def data(a):
    return a.data if hasattr(a, "tocsc") else a


class World:
    def __init__(self, c, r):
        self.c, self.r = c, r
        self.pool = []     # live references
        self.arrays = []   # (what, array, copy of its contents)
        self.nid = 0
        self.log = []
        self.lastvals = {}

    def id(self):
        self.nid += 1
        return self.nid

    def v(self, n, s=1.0):
        return np.array([self.r.gauss(0, s) for _ in range(n)])

    def R(self):
        return F.ExpMapSO3(self.v(3))

    def unit(self):
        x = self.v(3)
        return x / max(1e-9, np.linalg.norm(x))

    def sig(self):
        return self.r.uniform(0.1, 2)

    # ---- creating
    def make_var(self, kind=None, n=None):
        k = kind or self.r.choice(["PoseVariable", "PoseVariable", "LandmarkVariable", "GenericVariable", "RotationVariable",
                                   "InverseRangeVariable", "PlaneVariable", "Pose2DVariable"])
        i = self.id()
        if k == "PoseVariable":
            w = self.r.randrange(3)
            o = F.PoseVariable(i, self.v(6)) if w == 0 else F.PoseVariable(i, self.v(3), self.R()) if w == 1 else SubPose(i, self.v(6))
        elif k == "LandmarkVariable":
            o = F.LandmarkVariable(i, self.v(3, 5))
        elif k == "GenericVariable":
            o = F.GenericVariable(i, self.v(n or self.r.choice([1, 2, 3, 3, 6])))
        elif k == "RotationVariable":
            o = F.RotationVariable(i, self.R())
        elif k == "InverseRangeVariable":
            o = F.InverseRangeVariable(i, self.v(3), self.unit(), self.r.uniform(1, 10))
        elif k == "PlaneVariable":
            o = F.PlaneVariable(i, self.unit(), self.r.uniform(-3, 3))
        else:
            o = F.Pose2DVariable(i, self.v(3))
        if self.r.random() < 0.15:
            o.set_constant(True)
        self.c.count("create-variable")
        return o

    def pick(self, cls, make):
        """A variable in the pool, or a temporary nobody else holds."""
        have = [o for o in self.pool if isinstance(o, cls)]
        if have and self.r.random() < 0.7:
            return self.r.choice(have)
        return make()

    def gen(self, n):
        have = [o for o in self.pool if isinstance(o, F.GenericVariable) and o.size() == n]
        return self.r.choice(have) if have and self.r.random() < 0.7 else self.make_var("GenericVariable", n)

    def make_factor(self):
        P = lambda: self.pick(F.PoseVariable, lambda: self.make_var("PoseVariable"))
        L = lambda: self.pick(F.LandmarkVariable, lambda: self.make_var("LandmarkVariable"))
        Q = lambda: self.pick(F.Pose2DVariable, lambda: self.make_var("Pose2DVariable"))
        T = lambda: self.pick(F.RotationVariable, lambda: self.make_var("RotationVariable"))
        N = lambda: self.pick(F.PlaneVariable, lambda: self.make_var("PlaneVariable"))
        I = lambda: self.pick(F.InverseRangeVariable, lambda: self.make_var("InverseRangeVariable"))
        G, i, s, r = self.gen, self.id(), self.sig(), self.r
        k = r.randrange(18)
        if k == 0:
            n = r.choice([1, 2, 3])
            o = F.GenericPriorFactor(i, G(n), self.v(n), s)
        elif k == 1:
            o = F.GenericBetweenFactor(i, G(3), G(3), G(3), s)
        elif k == 2:
            o = F.LinearVelocityFactor(i, G(3), G(3), G(3), 0.5, s)
        elif k == 3:
            o = F.PosePositionPriorFactor(i, P(), self.v(3), s)
        elif k == 4:
            o = F.PoseOrientationPriorFactor(i, P(), self.R(), s)
        elif k == 5:
            o = F.RotationPriorFactor(i, T(), self.R(), s)
        elif k == 6:
            o = F.PosePositionBetweenFactor(i, P(), P(), G(3), s, r.random() < 0.5)
        elif k == 7:
            o = F.PoseOrientationBetweenFactor(i, P(), P(), T(), s)
        elif k == 8:
            o = F.BearingObservationFactor(i, P(), L(), self.unit(), s)
        elif k == 9:
            o = F.InverseRangeBearingFactor(i, P(), I(), self.unit(), s)
        elif k == 10:
            o = F.BearingProjectionFactor2D(i, P(), L(), self.unit(), s)
        elif k == 11:
            o = F.BearingObservationFactor2D(i, Q(), G(2), r.uniform(-3, 3), s)
        elif k == 12:
            o = F.RangeBearingFactor2D(i, Q(), G(2), r.uniform(1, 5), r.uniform(-3, 3), s, s)
        elif k == 13:
            o = F.Pose2DPriorFactor(i, Q(), self.v(3), s, s)
        elif k == 14:
            o = F.Pose2DBetweenFactor(i, Q(), Q(), G(3), s, s, False)
        elif k == 15:
            if r.random() < 0.5:
                o = F.PlaneFactor(i, L(), N(), s)
            else:
                o = F.PlaneFactor(i, L(), N(), s, True, 2.0, self.v(3))
        elif k == 16:
            o = F.PlanePriorFactor(i, N(), self.unit(), r.uniform(-2, 2), s, s)
        else:
            o = F.CoordinateTransformFactor(i, T(), G(3), G(1), L(), L(), s)
        self.c.count("create-factor:" + type(o).__name__)
        return o

    # ---- the monitors
    def note(self, what):
        self.log.append(what)

    def snap(self, what, a):
        if isinstance(a, np.ndarray) or hasattr(a, "tocsc"):
            self.arrays.append((what, a, np.array(data(a), copy=True), a.shape))
            self.c.count("array:" + what)

    def verify_arrays(self, when):
        for what, a, copy, shape in self.arrays:
            self.c.evals += 1
            d = np.asarray(data(a))
            if a.shape != shape or d.shape != copy.shape or not np.array_equal(d, copy, equal_nan=True):
                self.c.viol("array-changed:" + what, "an array returned by %s changed after %s; calls: %s" % (what, when, " ".join(self.log[-25:])))
        if len(self.arrays) > 60:
            self.r.shuffle(self.arrays)
            del self.arrays[30:]

    def everything(self, o):
        """All observable values of an object (as independent copies)."""
        n = type(o).__name__ if type(o) is not SubPose else "PoseVariable"
        return [np.array(getattr(o, g)(), copy=True) for g in GETTERS.get(n, [])]

    def poke(self, o, getter, what):
        """An array obtained from o is written to; o must not notice."""
        before = self.everything(o) if not isinstance(o, F.FactorGraph) else None
        try:
            a = getattr(o, getter)()
        except (RuntimeError, IndexError, ValueError):
            return
        if before is None:
            b2 = np.array(data(getattr(o, getter)()), copy=True)
        d = np.asarray(data(a))
        if d.size and d.flags.writeable:
            d[...] = 1e300
        self.c.evals += 1
        self.c.count("written:" + what)
        if before is not None:
            after = self.everything(o)
            same = all(np.array_equal(x, y, equal_nan=True) for x, y in zip(before, after))
        else:
            same = np.array_equal(np.asarray(data(getattr(o, getter)())), b2, equal_nan=True)
        self.c.check(same, "write-through:" + what, "writing to the array returned by %s altered the object" % what)

    def record(self, vs):
        """What the variables are right now (a clone shares its original's id: then any of the recorded values will do)."""
        self.lastvals = {}
        for o in vs:
            self.lastvals.setdefault(o.id(), []).append((type(o).__name__, np.array(o.value(), copy=True), getattr(o, "tag", None)))

    def recheck(self, vs, how):
        for o in vs:
            w = self.lastvals.get(o.id())
            if w is None:
                continue
            self.c.evals += 1
            self.c.count("rechecked:" + how)
            if not any(type(o).__name__ == t and np.array_equal(o.value(), x, equal_nan=True) and getattr(o, "tag", None) == g for t, x, g in w):
                self.c.viol("handed-out:" + how, "variable %d is %s %s, was %s; calls: %s" % (
                    o.id(), type(o).__name__, o.value(), w, " ".join(self.log[-25:])))

    def churn(self):
        """Something else takes the memory that was freed."""
        self.junk = [bytearray(self.r.randrange(16, 600)) for _ in range(20)] + [np.full(self.r.randrange(1, 80), np.nan) for _ in range(10)]

    def reachable(self):
        """Variables through every owner that hands them out."""
        vs, fs = [], []
        for o in self.pool:
            if isinstance(o, F.FactorGraph):
                fs += o.get_all_factors()
                vs += o.get_all_variables()
            elif isinstance(o, F.Factor):
                fs.append(o)
            elif isinstance(o, F.Variable):
                vs.append(o)
        for f in fs:
            vs += f.variables()
        return vs, fs

    def step(self, k=None):
        r, pool, c = self.r, self.pool, self.c
        if k is None:
            k = r.choice([0, 1, 2, 3, 4, 5, 5, 6, 7, 9, 10, 11, 12, 13, 14, 14, 15, 16, 17, 17, 18, 19, 20])
        c.evals += 1
        graphs = [o for o in pool if isinstance(o, F.FactorGraph)]
        opts = [o for o in pool if isinstance(o, F.SparseOptimizer)]
        if k == 0:
            pool.append(self.make_var())
            self.note("variable")
        elif k in (1, 2):
            pool.append(self.make_factor())
            self.note("factor")
        elif k == 3 and len(graphs) < 3:
            pool.append(F.FactorGraph())
            self.note("graph")
        elif k == 4 and len(opts) < 2:
            pool.append(F.SparseOptimizer())
            self.note("optimizer")
        elif k == 5 and graphs:
            # fill a graph with what there is, and drop some of it at once
            g = r.choice(graphs)
            vs, fs = self.reachable()
            seen = {v.id() for v in g.get_all_variables()}
            for v in vs:
                if v.id() not in seen and r.random() < 0.9:
                    seen.add(v.id())
                    g.add_variable(v)
            fseen = {f.id() for f in g.get_all_factors()}
            for f in fs:
                if f.id() not in fseen and r.random() < 0.9:
                    fseen.add(f.id())
                    g.add_factor(f)
            if r.random() < 0.5:
                # enough priors to make it solvable
                for v in vs:
                    if isinstance(v, F.GenericVariable):
                        g.add_factor(F.GenericPriorFactor(self.id(), v, np.array(v.value()), 1.0))
                    elif isinstance(v, F.PoseVariable):
                        g.add_factor(F.PosePositionPriorFactor(self.id(), v, v.pos_W(), 1.0))
                        g.add_factor(F.PoseOrientationPriorFactor(self.id(), v, v.dcm_CW(), 1.0))
                    elif isinstance(v, F.Pose2DVariable):
                        g.add_factor(F.Pose2DPriorFactor(self.id(), v, v.value(), 1.0, 1.0))
                    elif isinstance(v, F.LandmarkVariable):
                        g.add_factor(F.GenericPriorFactor(self.id(), v, np.array(v.value()), 1.0))
                    elif isinstance(v, F.RotationVariable):
                        g.add_factor(F.RotationPriorFactor(self.id(), v, np.array(v.dcm_AB()), 1.0))
                    elif isinstance(v, F.InverseRangeVariable):
                        g.add_factor(F.GenericPriorFactor(self.id(), v, np.array(v.value()), 1.0))
            del vs, fs
            self.note("fill")
            c.count("fill")
            try:
                g.finalize_structure()
                c.count("finalized")
            except RuntimeError:
                pass
        elif k in (6, 7, 8) and pool:
            # drop references, in any order
            vs, _ = self.reachable()
            self.record(vs)
            del vs, _
            graphs = opts = None
            how = r.randrange(4)
            if how == 0:
                pool.pop(r.randrange(len(pool)))
            elif how == 1:
                r.shuffle(pool)
                del pool[len(pool) // 2:]
            elif how == 2:
                keep = r.choice([F.FactorGraph, F.SparseOptimizer, F.Factor, F.Variable])
                pool[:] = [o for o in pool if isinstance(o, keep)]
            else:
                # part of a reference cycle: freed by the collector only
                o = pool.pop(r.randrange(len(pool)))
                cyc = [o]
                cyc.append(cyc)
                del o, cyc
            if r.random() < 0.6:
                gc.collect()
            self.churn()
            self.note("drop%d" % how)
            c.count("drop")
            vs, _ = self.reachable()
            self.recheck(vs, "after-drop")
            del vs, _
            self.verify_arrays("dropping references")
        elif k == 9 and pool:
            # what an object hands out outlives the object's own reference
            o = r.choice(pool)
            got = []
            if isinstance(o, F.Factor):
                got = o.variables()
            elif isinstance(o, F.FactorGraph):
                got = r.choice([o.get_all_variables, o.get_all_factors])()
                vs = o.get_all_variables()
                if vs:
                    got.append(o.get_variable(r.choice(vs).id()))
            elif isinstance(o, F.Variable):
                got = [o.clone()]
            elif isinstance(o, F.SparseOptimizer):
                got = [o.settings(), o.current_stats, o.initial_stats]
            self.record([x for x in got if isinstance(x, F.Variable)])
            if r.random() < 0.5:
                pool[:] = [x for x in pool if x is not o]
                graphs = opts = None
            del o
            vs = None
            gc.collect()
            self.churn()
            self.recheck([x for x in got if isinstance(x, F.Variable)], "outlives-owner")
            for x in got:
                if isinstance(x, F.Factor):
                    x.compute_residual()
                    [v.value() for v in x.variables()]
                elif isinstance(x, F.OptimizerSettings):
                    (x.method, x.max_num_iterations, x.lambda_up_factor, x.verbose)
                elif isinstance(x, F.OptimizerStats):
                    (x.valid, x.status, x.chi2, x.rank)
                elif isinstance(x, F.Variable):
                    x.name()
            if got and len(pool) < 25:
                pool.append(r.choice(got))
            c.count("handed-out")
            self.note("handout")
        elif k in (10, 11) and pool:
            o = r.choice(pool)
            n = "PoseVariable" if type(o) is SubPose else type(o).__name__
            if isinstance(o, F.FactorGraph):
                gname = r.choice(GRAPHGET)
                try:
                    self.snap("FactorGraph." + gname, getattr(o, gname)())
                except RuntimeError:
                    pass
            elif isinstance(o, F.Factor):
                self.snap("Factor.compute_residual", o.compute_residual())
                for gname in GETTERS.get(n, []):
                    self.snap(n + "." + gname, getattr(o, gname)())
            elif isinstance(o, F.Variable):
                for gname in GETTERS[n]:
                    self.snap(n + "." + gname, getattr(o, gname)())
            self.note("arrays")
        elif k == 12 and pool:
            o = r.choice(pool)
            n = "PoseVariable" if type(o) is SubPose else type(o).__name__
            if isinstance(o, F.FactorGraph):
                gname = r.choice(GRAPHGET)
                self.poke(o, gname, "FactorGraph." + gname)
            elif n in GETTERS:
                gname = r.choice(GETTERS[n])
                self.poke(o, gname, n + "." + gname)
            self.note("write-array")
            self.verify_arrays("writing to another array")
        elif k == 13:
            vs, _ = self.reachable()
            if vs:
                v = r.choice(vs)
                x = self.v(v.size(), 0.1)
                if isinstance(v, F.PlaneVariable):
                    x[:3] = 0.01
                v.apply_increment(x)
                keep = np.array(v.value(), copy=True)
                if r.random() < 0.5:
                    v.set_value_from_vector(keep)
                # the argument is not referred to afterwards
                arg = np.array(keep)
                v.set_value_from_vector(arg)
                now = np.array(v.value(), copy=True)
                arg[...] = np.nan
                c.check(np.array_equal(v.value(), now), "argument-kept", "a variable follows the array its value was set from")
            self.note("change")
            self.verify_arrays("changing a variable")
        elif k == 14 and graphs:
            g = r.choice(graphs)
            for f in (g.finalize_structure, g.compute_full_jacobian_and_residual, g.compute_sparse_jacobian_matrix):
                try:
                    f()
                except RuntimeError:
                    c.count("refused")
            self.note("evaluate")
            self.verify_arrays("finalizing and evaluating")
        elif k in (15, 16) and graphs and opts:
            o, g = r.choice(opts), r.choice(graphs)
            s = F.OptimizerSettings()
            s.method = r.choice([F.OptimizerMethod.GaussNewton, F.OptimizerMethod.LevenbergMarquardt])
            s.max_num_iterations = r.randrange(1, 5)
            o.setup(g, s)
            c.count("setup")
            if r.random() < 0.5:
                # only the optimizer holds the graph from here on
                pool[:] = [x for x in pool if x is not g]
            del g, s
            graphs = None
            gc.collect()
            self.churn()
            self.note("setup")
        elif k == 17 and opts:
            o = r.choice(opts)
            try:
                o.optimize()
                c.count("optimized")
                o.prepare_to_estimate_covariances()
            except RuntimeError:
                c.count("refused")
            vs, _ = self.reachable()
            for v in vs[:3]:
                try:
                    P, ok = o.estimate_covariance(v)
                    if ok:
                        self.snap("SparseOptimizer.estimate_covariance", P)
                except RuntimeError:
                    pass
            st = o.current_stats
            keep = (st.valid, st.chi2)
            del o, vs, _
            opts = None
            if r.random() < 0.3:
                pool[:] = [x for x in pool if not isinstance(x, F.SparseOptimizer)]
                gc.collect()
                self.churn()
                c.check((st.valid, st.chi2) == keep or keep[1] != keep[1], "stats-kept", "statistics changed when the optimizer went away")
            self.note("optimize")
            self.verify_arrays("optimizing")
        elif k == 18:
            # a whole scene made of temporaries, of which only one object remains
            g = F.FactorGraph()
            vs = [self.make_var() for _ in range(r.randrange(1, 4))]
            for v in vs:
                g.add_variable(v)
            f = self.make_factor()
            g.add_factor(f)
            keep = r.choice([g, f, vs[0], g.get_variable(vs[0].id()), g.get_all_factors()[0], f.variables()[0]])
            self.record(vs + f.variables() + self.reachable()[0])
            i = r.choice(vs).id() if r.random() < 0.4 else None
            if i is not None:
                keep = None
            del vs, f
            v = None
            gc.collect()
            if i is not None:
                # asked for when Python had no object of it any more
                keep = g.get_variable(i)
                c.check(keep is not None and keep.id() == i, "get_variable", "no variable %d" % i)
                c.count("asked-for-again")
            del g
            gc.collect()
            self.churn()
            pool.append(keep)
            c.count("only-one-remains")
            vs, fs = self.reachable()
            self.recheck(vs, "only-one-remains")
            for f in fs:
                f.compute_residual()
        elif k == 20:
            # reports, whatever state the object is in (never set up, not finalized, emptied of its graph)
            if r.random() < 0.15:
                pool.append(F.SparseOptimizer())
            what = graphs + opts + ([pool[-1]] if pool else [])
            if not what:
                return
            o = r.choice(what)
            calls = []
            if isinstance(o, F.FactorGraph):
                calls = [("print_structure", ()), ("print_variables", ()), ("print_jacobian_and_residual", (r.random() < 0.5,)),
                         ("detailed_factor_test", (1e-4, r.random() < 0.5)), ("set_verbose", (r.random() < 0.5,))]
            elif isinstance(o, F.SparseOptimizer):
                calls = [("print_all_covariances", ()), ("prepare_to_estimate_covariances", ()), ("optimize", ())]
            elif hasattr(o, "print"):
                calls = [("print", ())]
            r.shuffle(calls)
            for name, args in calls:
                with Quiet():
                    try:
                        getattr(o, name)(*args)
                        c.count("reported")
                    except RuntimeError:
                        c.count("refused")
                c.evals += 1
            del o, what
            self.note("report")
            self.verify_arrays("reporting")
        elif k == 19:
            gc.collect()
            self.churn()
            vs, fs = self.reachable()
            for f in fs:
                f.compute_residual()
                c.evals += 1
            self.verify_arrays("a collection")


def case(c, r):
    w = World(c, r)
    n = r.randrange(15, 60)
    if r.random() < 0.6:
        for k in [1] * r.randrange(2, 7) + [3, 4, 5, 15, 17]:
            w.step(k)
    for _ in range(n):
        w.step()
    while w.pool and r.random() < 0.95:
        w.pool.pop(r.randrange(len(w.pool)))
        if r.random() < 0.2:
            gc.collect()
            w.verify_arrays("final drops")
    w.verify_arrays("the end")
    c.count("histories")
    c.cover(hash((tuple(w.log), w.nid)))
    if len(c.samples) < 3:
        c.samples.append(" ".join(w.log))


sys.stdout.flush()
pyvp.loop("P24", n_cases, case)
