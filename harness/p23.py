"""P23, Python half: runs the programs written by p23gen through the Python module and compares every answer with the C++
library's. Usage: p23.py --gen <p23gen executable> [vp_main options]"""
import ctypes
import json
import os
import re
import subprocess
import sys
import tempfile
import traceback
import warnings

import numpy as np

import pyvp
import factorama as F
import factorama._factorama as M

warnings.filterwarnings("error", category=RuntimeWarning)
NAMES = {"Generic": "GenericVariable", "Landmark": "LandmarkVariable", "Rotation": "RotationVariable", "Pose": "PoseVariable",
         "Pose2D": "Pose2DVariable", "Plane": "PlaneVariable", "InverseRange": "InverseRangeVariable"}
DEFAULT = object()


def m2(m):
    return np.array(m["d"], float).reshape(m["r"], m["c"])


libc = ctypes.CDLL(None)


class Capture:
    """Everything written to file descriptor 1."""

    def __init__(self):
        libc.fflush(None)
        self.save = os.dup(1)
        self.f = tempfile.TemporaryFile()
        os.dup2(self.f.fileno(), 1)

    def end(self):
        libc.fflush(None)
        os.dup2(self.save, 1)
        os.close(self.save)
        self.f.seek(0)
        t = self.f.read().decode(errors="replace")
        self.f.close()
        return t


def same_text(a, b):
    # timings, and quantities that are rounding noise on a rank-deficient Jacobian
    a, b = [re.sub(r"\d+(\.\d+)? (us|ms|s)\b|(Condition estimate|Jacobian rank): \S+", "", t) for t in (a, b)]
    if a == b:
        return True
    A, B = re.findall(r"[^\s,;:=()\[\]]+", a), re.findall(r"[^\s,;:=()\[\]]+", b)
    if len(A) != len(B):
        return False
    for x, y in zip(A, B):
        if x != y:
            try:
                x, y = float(x), float(y)
            except ValueError:
                return False
            if not abs(x - y) <= 1e-3 * max(1e-3, abs(x), abs(y)):
                return False
    return True


class Driver:
    def __init__(self, c, rng, d):
        self.c, self.r, self.d = c, rng, d
        self.vars, self.facs = [], []
        self.g = F.FactorGraph()
        self.opt = F.SparseOptimizer()
        self.h = 0
        self.where = ""

    # ---- argument forms: the same value as list, tuple, arrays of other layout or type
    def vec(self, v):
        v = [float(x) for x in v]
        k = self.r.randrange(6)
        if k == 0:
            return v
        if k == 1:
            return tuple(v)
        if k == 2 and v:
            a = np.zeros(2 * len(v) + 3)
            a[:] = np.nan
            a[1:1 + 2 * len(v):2] = v
            return a[1:1 + 2 * len(v):2]
        if k == 3 and v:
            return np.array(v[::-1])[::-1]
        if k == 4 and len(v) > 1:
            return np.array(v).reshape(-1, 1)
        return np.array(v)

    def mat(self, m):
        a = m2(m)
        k = self.r.randrange(5)
        if k == 0:
            return np.asfortranarray(a)
        if k == 1:
            return a.tolist()
        if k == 2:
            return np.ascontiguousarray(a.T).T
        if k == 3:
            b = np.full((6, 8), np.nan)
            b[1:4, 2:8:2] = a
            return b[1:4, 2:8:2]
        return a

    def num(self, x):
        if x == int(x) and abs(x) < 1e6 and self.r.random() < 0.3:
            return int(x)
        return np.float64(x) if self.r.random() < 0.3 else float(x)

    def bad(self, key, msg):
        self.c.viol(key, "%s: %s" % (self.where, msg))

    def same(self, key, got, want, tol=1e-9):
        self.c.evals += 1
        if isinstance(want, bool):
            ok = got is want
        elif isinstance(want, str):
            ok = got == want
        elif isinstance(want, int) and not isinstance(got, float):
            ok = isinstance(got, int) and got == want
        elif isinstance(want, dict):
            g = np.asarray(got, float)
            w = m2(want)
            if g.ndim != 2 and w.size == g.size and 1 in w.shape:
                g = g.reshape(w.shape)  # (vectors come out one-dimensional)
            ok = pyvp.close(g, w, tol)
            if not ok:
                want = w.tolist()
        else:
            ok = pyvp.close(got, want, tol)
        if not ok:
            self.bad(key, "%s is %r, C++ says %r" % (key, got.tolist() if isinstance(got, np.ndarray) else got, want))
        return ok

    # ---- constructing, with positional, keyword and default arguments
    def make(self, cls, params):
        """params: (name, value, default-or-absent)"""
        params = list(params)
        # trailing parameters at their documented default may be left out
        keep = len(params)
        while keep and len(params[keep - 1]) == 3 and params[keep - 1][1] == params[keep - 1][2] and self.r.random() < 0.7:
            keep -= 1
        use = params[:keep]
        if keep < len(params):
            self.c.count("default-argument")
        npos = self.r.choice([len(use), self.r.randrange(len(use) + 1)])
        pos = [p[1] for p in use[:npos]]
        kw = {p[0]: p[1] for p in use[npos:]}
        # with keywords, defaulted ones in the middle may be left out as well
        for p in use[npos:]:
            if len(p) == 3 and p[1] == p[2] and self.r.random() < 0.5:
                del kw[p[0]]
        if kw:
            items = list(kw.items())
            self.r.shuffle(items)
            kw = dict(items)
            self.c.count("keyword-argument")
        self.c.count("constructed:" + cls.__name__)
        return cls(*pos, **kw)

    def var(self, v):
        k, i = v["k"], v["init"]
        cls = getattr(F, NAMES[k])
        if k == "Generic":
            o = self.make(cls, [("id", v["id"]), ("initial_value", self.vec(i))])
        elif k == "Landmark":
            o = self.make(cls, [("id", v["id"]), ("pos_W_init", self.vec(i))])
        elif k == "Rotation":
            o = self.make(cls, [("id", v["id"]), ("dcm_AB", self.mat(v["R"]))])
        elif k == "Pose":
            if v["ctor"] == 0:
                o = self.make(cls, [("id", v["id"]), ("pose_CW_init", self.vec(i))])
            else:
                o = self.make(cls, [("id", v["id"]), ("pos_W", self.vec(i[:3])), ("dcm_CW", self.mat(v["R"]))])
        elif k == "Pose2D":
            o = self.make(cls, [("id", v["id"]), ("pose_2d", self.vec(i))])
        elif k == "Plane":
            o = self.make(cls, [("id", v["id"]), ("normal_vector", self.vec(i[:3])), ("distance", self.num(i[3]))])
        else:
            o = self.make(cls, [("id", v["id"]), ("origin_pos_W", self.vec(i[:3])), ("bearing_W", self.vec(i[3:6])),
                                ("initial_range", self.num(i[6]))])
        if v["c"]:
            o.set_constant(True)
        return o

    def fac(self, f):
        k, V = f["k"], [self.vars[i] for i in f["v"]]
        p, s1, s2 = f["p"], f["s1"], f["s2"]
        i = ("id", f["id"])
        n = self.num
        S = lambda name, s: (name, n(s), 1.0)
        if k == "GenericPrior":
            a = [i, ("variable", V[0]), ("prior_value", self.vec(p)), S("sigma", s1)]
        elif k == "GenericBetween":
            a = [i, ("var_a", V[0]), ("var_b", V[1]), ("measured_diff", V[2]), S("sigma", s1)]
        elif k == "LinearVelocity":
            a = [i, ("var_1", V[0]), ("var_2", V[1]), ("velocity_variable", V[2]), ("dt", n(f["a"])), S("sigma", s1)]
        elif k == "PosePositionPrior":
            a = [i, ("pose", V[0]), ("pos_prior", self.vec(p)), S("sigma", s1)]
        elif k == "PoseOrientationPrior":
            a = [i, ("pose", V[0]), ("rotvec_prior", self.mat(f["R"])), S("sigma", s1)]
        elif k == "RotationPrior":
            a = [i, ("rotation", V[0]), ("dcm_AB_prior", self.mat(f["R"])), S("sigma", s1)]
        elif k == "PosePositionBetween":
            a = [i, ("pose_a", V[0]), ("pose_b", V[1]), ("measured_diff", V[2]), S("sigma", s1), ("local_frame", f["local"], False)]
        elif k == "PoseOrientationBetween":
            a = [i, ("pose1", V[0]), ("pose2", V[1]), ("calibration_rotation_12", V[2]), S("angle_sigma", s1)]
        elif k == "BearingObservation":
            a = [i, ("pose_var", V[0]), ("landmark_var", V[1]), ("bearing_C_observed", self.vec(p)), S("angle_sigma", s1)]
        elif k == "InverseRangeBearing":
            a = [i, ("pose_var", V[0]), ("inverse_range_var", V[1]), ("bearing_C_observed", self.vec(p)), S("angle_sigma", s1)]
        elif k == "BearingProjection2D":
            a = [i, ("pose", V[0]), ("landmark", V[1]), ("bearing_C_observed", self.vec(p)), S("sigma", s1),
                 ("along_tolerance_epsilon", n(f["a"]) if f["a"] > 0 else 1e-6, 1e-6)]
        elif k == "BearingObservation2D":
            a = [i, ("pose_var", V[0]), ("landmark_var", V[1]), ("bearing_angle_obs", n(p[0])), S("angle_sigma", s1)]
        elif k == "RangeBearing2D":
            a = [i, ("pose_var", V[0]), ("landmark_var", V[1]), ("range_obs", n(p[0])), ("bearing_angle_obs", n(p[1])),
                 S("range_sigma", s1), S("bearing_sigma", s2)]
        elif k == "Pose2DPrior":
            a = [i, ("pose_var", V[0]), ("pose_prior", self.vec(p)), ("position_sigma", n(s1)), ("angle_sigma", n(s2))]
        elif k == "Pose2DBetween":
            a = [i, ("pose_a", V[0]), ("pose_b", V[1]), ("measured_between_variable", V[2]), ("position_sigma", n(s1)),
                 ("angle_sigma", n(s2)), ("local_frame", f["local"], False)]
        elif k == "Plane":
            if not p:
                a = [i, ("point_var", V[0]), ("plane_var", V[1]), S("sigma", s1)]
            else:
                a = [i, ("point_var", V[0]), ("plane_var", V[1]), ("sigma", n(s1)), ("do_distance_scaling", f["scaled"]),
                     ("dist_scaling_r0", n(f["a"])), ("dist_scaling_p0", self.vec(p))]
        elif k == "PlanePrior":
            a = [i, ("plane", V[0]), ("normal_prior", self.vec(p[:3])), ("distance_prior", n(p[3])), S("normal_sigma", s1),
                 S("distance_sigma", s2)]
        elif k == "CoordinateTransform":
            a = [i, ("rot_AB", V[0]), ("B_origin_A", V[1]), ("scale_AB", V[2]), ("lm_A", V[3]), ("lm_B", V[4]), S("sigma", s1)]
        else:
            raise RuntimeError("unknown factor " + k)
        return self.make(getattr(F, k + "Factor" if not k.endswith("2D") or k.startswith("Pose") else k[:-2] + "Factor2D"), a)

    # ---- observing
    def var_state(self, o, s, tol=1e-9):
        for k, w in s.items():
            if k == "type":
                self.same("type", int(o.type()), w)
            elif k.startswith("@"):
                self.same(k, getattr(o, k[1:]), w)
            elif k == "distance_from_point":
                self.same(k, o.distance_from_point(self.vec(w["arg"])), w["x"], tol)
            else:
                self.same(k, getattr(o, k)(), w, tol)

    def fac_state(self, o, s):
        for k, w in s.items():
            if k == "type":
                self.same("type", int(o.type()), w)
            elif k == "variables":
                vs = o.variables()
                self.same("variables", [v.id() for v in vs], w)
                for v in vs:
                    if not any(v is x for x in self.vars):
                        self.bad("variables", "a factor handed out an object that is not the variable it was given")
            elif k == "compute_residual":
                self.call("compute_residual", o.compute_residual, w)
            else:
                self.same(k, getattr(o, k)(), w)

    def call(self, key, fn, want, *args):
        """One call that may be refused: the same exception, or the same result."""
        self.c.evals += 1
        try:
            got = fn(*args)
        except Exception as e:
            if not isinstance(want, dict) or "err" not in want:
                self.bad(key, "raised %r, C++ returned" % (e,))
            elif type(e).__name__ != want["err"] or str(e) != want["msg"]:
                self.bad(key, "raised %r, C++ threw %s: %s" % (e, want["err"], want["msg"]))
            self.c.count("refused:" + key)
            return None
        if isinstance(want, dict) and "err" in want:
            self.bad(key, "returned %r, C++ threw %s: %s" % (got, want["err"], want["msg"]))
            return None
        self.c.count(key)
        if want is None:
            if got is not None:
                self.bad(key, "returned %r" % (got,))
        elif want != "skip":
            self.same(key, got.toarray() if hasattr(got, "toarray") else got, want)
        return got

    def stats(self, o, w):
        for k, v in w.items():
            x = getattr(o, k)
            if k == "status":
                x = int(x)
            self.same("stats." + k, x, v, 1e-6)

    def settings(self, o, w, key="settings."):
        for k, v in w.items():
            x = getattr(o, k)
            if k == "method":
                x = int(x)
            self.same(key + k, x, v)

    def write_settings(self, o, w):
        items = list(w.items())
        self.r.shuffle(items)
        for k, v in items:
            setattr(o, k, F.OptimizerMethod(v) if k == "method" else v)

    def run(self):
        d, c = self.d, self.c
        if "enums" in d:
            self.where = "enums"
            for k, v in d["enums"].items():
                t, n = k.split(".")
                self.same(k, int(getattr(getattr(F, t), n)), v)
            for t in ("VariableType", "FactorType", "OptimizerMethod", "OptimizerStatus"):
                mem = getattr(F, t).__members__
                want = {k.split(".")[1] for k in d["enums"] if k.startswith(t + ".")}
                if not want <= set(mem):
                    self.bad("enum", "%s lacks %s" % (t, want - set(mem)))
                for a in mem:
                    if int(mem[a]) != d["enums"].get(t + "." + a, int(mem[a])) or mem[a].name != a:
                        self.bad("enum", "%s.%s is %r" % (t, a, mem[a]))
            self.where = "defaults"
            self.settings(F.OptimizerSettings(), d["default_settings"])
            self.stats(F.OptimizerStats(), d["default_stats"])
            self.stats(self.opt.initial_stats, d["default_optimizer"][0])
            self.stats(self.opt.current_stats, d["default_optimizer"][1])
            self.settings(self.opt.settings(), d["default_optimizer"][2])
            self.bad_arguments()
            c.count("defaults")
        for i, v in enumerate(d["vars"]):
            self.where = "variable %s %d" % (v["k"], v["id"])
            o = self.var(v)
            self.vars.append(o)
            self.var_state(o, v["state"])
        for i, f in enumerate(d["facs"]):
            self.where = "factor %s %d" % (f["k"], f["id"])
            o = self.fac(f)
            self.facs.append(o)
            self.fac_state(o, f["state"])
            if f["model"] is not None:
                c.evals += 1
                c.count("model-residual")
                got = o.compute_residual()
                # (the Gram matrix, where the axes of the measurement plane are the library's choice)
                a, b = np.asarray(got), np.asarray(f["model"])
                if f["k"] == "BearingProjection2D":
                    a, b = a @ a, b @ b
                if not pyvp.close(a, b, 1e-5):
                    self.bad("model-residual", "residual %r, mathematical model %r" % (a.tolist(), b.tolist()))
        for n, (op, a, w) in enumerate(d["steps"]):
            self.where = "step %d %s" % (n, op)
            self.h = hash((self.h, op, str(a)[:100], str(w)[:200]))
            self.step(op, a, w)
        c.cover(self.h)
        if len(c.samples) < 3:
            c.samples.append("vars " + ",".join(v["k"] for v in d["vars"]) + "; factors " + ",".join(f["k"] for f in d["facs"]) +
                             "; calls " + ",".join(s[0] for s in d["steps"]))

    def bad_arguments(self):
        """Arguments of the wrong type or shape are refused with TypeError."""
        p = F.PoseVariable(1, [0, 0, 0, 0, 0, 0])
        l = F.LandmarkVariable(2, [1, 2, 3])
        for f in (lambda: F.PoseVariable(1, [0, 0, 0]), lambda: F.LandmarkVariable(1, [1, 2]), lambda: F.LandmarkVariable("a", [1, 2, 3]),
                  lambda: F.BearingObservationFactor(1, l, p, [0, 0, 1]), lambda: F.BearingObservationFactor(1, p, l, [0, 1]),
                  lambda: F.PosePositionPriorFactor(1, l, [0, 0, 0]), lambda: F.RotationVariable(1, [1, 0, 0]),
                  lambda: F.FactorGraph().add_variable(3), lambda: F.FactorGraph().add_factor(l), lambda: F.Pose2DVariable(1, np.eye(3)),
                  lambda: F.BearingObservationFactor(1, p, l, [0, 0, 1], nonsense=2), lambda: F.SparseOptimizer().setup(None)):
            try:
                f()
            except TypeError:
                self.c.count("type-error")
                continue
            self.bad("bad-arguments", "accepted")

    def step(self, op, a, w):
        g, c = self.g, self.c
        if op == "add_variable":
            self.call(op, g.add_variable, w, self.vars[a])
        elif op == "add_factor":
            self.call(op, g.add_factor, w, self.facs[a])
        elif op == "finalize":
            self.call("finalize_structure", g.finalize_structure, w)
        elif op == "graph":
            for k, v in w.items():
                if k == "get_all_variables":
                    o = g.get_all_variables()
                    self.same(k, [x.id() for x in o], v)
                    if not all(any(x is y for y in self.vars) for x in o):
                        self.bad(k, "handed out an object that is not the variable it was given")
                elif k == "get_all_factors":
                    o = g.get_all_factors()
                    self.same(k, [x.id() for x in o], v)
                    if not all(any(x is y for y in self.facs) for x in o):
                        self.bad(k, "handed out an object that is not the factor it was given")
                else:
                    self.same(k, getattr(g, k)(), v)
        elif op in ("compute_full_residual_vector", "compute_full_jacobian_matrix", "compute_sparse_jacobian_matrix", "jacobian", "residual",
                    "sparse_jacobian", "get_variable_vector", "compute_full_jacobian_and_residual"):
            self.call(op, getattr(g, op), w)
        elif op == "get_variable":
            v = g.get_variable(a)
            c.count(op)
            if w is None or v is None:
                if not (w is None and v is None):
                    self.bad(op, "%r" % (v,))
            else:
                self.var_state(v, w)
                if not any(v is x for x in self.vars):
                    self.bad(op, "not the object that was added")
        elif op in ("apply_increment", "set_variable_values_from_vector"):
            self.call(op, getattr(g, op), w, self.vec(a))
        elif op == "detailed_factor_test":
            if self.r.random() < 0.5:
                self.call(op, g.detailed_factor_test, w, a)
            else:
                self.call(op, lambda: g.detailed_factor_test(verbose=self.r.random() < 0.3, jacobian_tol=a), w)
        elif op == "var":
            i, name, arg = a
            arg = self.vec(arg) if isinstance(arg, list) else arg
            self.call("variable." + name, getattr(self.vars[i], name), w, arg)
        elif op == "limits":
            self.vars[a[0]].minimum_inverse_range = a[1]
            self.vars[a[0]].maximum_inverse_range = a[2]
            c.count("limits")
        elif op == "state":
            self.var_state(self.vars[a], w)
        elif op == "clone":
            o = self.vars[a[0]].clone()
            if type(o) is not type(self.vars[a[0]]) or o is self.vars[a[0]]:
                self.bad("clone", "a %r" % (o,))
            self.var_state(o, w[0])
            o.apply_increment(self.vec(a[1]))
            self.var_state(o, w[1])
            self.var_state(self.vars[a[0]], w[2])
            c.count("clone")
        elif op == "factor":
            self.fac_state(self.facs[a], w)
        elif op == "setup":
            s = F.OptimizerSettings()
            self.write_settings(s, a)
            self.call("setup", self.opt.setup, w, g, s)
            # later changes of the caller's settings object have no effect
            s.max_num_iterations = 77
            s.learning_rate = 0.123
        elif op == "settings":
            self.settings(self.opt.settings(), w)
        elif op == "optimize":
            self.call("optimize", self.opt.optimize, w)
        elif op == "stats":
            self.stats(self.opt.initial_stats, w[0])
            self.stats(self.opt.current_stats, w[1])
        elif op == "prepare":
            self.call("prepare", self.opt.prepare_to_estimate_covariances, w)
        elif op == "covariance":
            r = self.call("estimate_covariance", self.opt.estimate_covariance if self.r.random() < 0.5 else
                          (lambda v: self.opt.estimate_covariance(variable=v)), "skip" if not (isinstance(w, dict)) else w, self.vars[a])
            if r is not None:
                if not isinstance(r, tuple) or len(r) != 2:
                    self.bad("estimate_covariance", "%r" % (r,))
                else:
                    self.same("covariance valid", r[1], w[1])
                    self.same("covariance", r[0], w[0], 1e-7)
                    if w[1]:
                        c.count("covariance-valid")
        elif op == "so3":
            R = F.ExpMapSO3(self.vec(a)) if self.r.random() < 0.5 else F.ExpMapSO3(omega=self.vec(a))
            self.same("ExpMapSO3", R, w[0])
            Rm = self.mat(w[0])
            self.same("LogMapSO3", F.LogMapSO3(Rm) if self.r.random() < 0.5 else F.LogMapSO3(R=Rm), w[1])
            c.count("so3")
        elif op == "print":
            name = a.split("-")[0]
            o = self.opt if name == "print_all_covariances" else g
            args = {"print_jacobian_and_residual-detailed": (True,), "detailed_factor_test-verbose": (1e-3, True)}.get(a, ())
            text = Capture()
            try:
                self.call(a, getattr(o, name), "skip" if w[0] is None else w[0], *args)
            finally:
                got = text.end()
            self.c.evals += 1
            if not same_text(got, w[1]):
                self.bad("printed text", "of %s is %r, C++ prints %r" % (a, got[:600], w[1][:600]))
        else:
            raise RuntimeError("unknown step " + op)


def main():
    a = pyvp.args()
    c = pyvp.Ctx(a, "P23")
    cmd = [a["--gen"]]
    for k in ("--seed", "--tier", "--shard", "--nshards", "--from", "--case", "--cases"):
        if k in a:
            cmd += [k, a[k]]
    cmd += ["--out", "/dev/null"]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE)
    for line in p.stdout:
        d = json.loads(line)
        c.idx = d["case"]
        c.set_cur(c.idx)
        try:
            Driver(c, c.rng(), d).run()
        except Exception:
            c.viol("unexpected-exception", traceback.format_exc()[-2500:])
    if p.wait():
        # the C++ library itself failed: that is not for this check to judge, unless nothing was compared
        sys.stderr.write("generator ended with %d\n" % p.returncode)
        if p.returncode == 2:
            c.set_cur(-1)
            sys.exit(2)
    c.finish()


main()
