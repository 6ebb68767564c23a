"""P25: PlotFactorGraph draws the graph it is given and changes nothing. Random graphs of every variable and factor type are
plotted under all option combinations; the artists found on the axes are compared with what the graph should look like."""
import sys
import warnings

import numpy as np

import pyvp
import factorama as F
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from mpl_toolkits.mplot3d.art3d import Line3D, Line3DCollection, Path3DCollection, Poly3DCollection
from matplotlib.collections import PathCollection
from matplotlib.patches import Ellipse, FancyArrow
warnings.simplefilter("ignore")


def n_cases(thorough):
    return 16000 if thorough else 1000


def rodrigues(w):
    t = np.linalg.norm(w)
    K = np.array([[0, -w[2], w[1]], [w[2], 0, -w[0]], [-w[1], w[0], 0]])
    if t < 1e-12:
        return np.eye(3) + K
    return np.eye(3) + np.sin(t) / t * K + (1 - np.cos(t)) / t ** 2 * K @ K


def rot2(t):
    return np.array([[np.cos(t), -np.sin(t)], [np.sin(t), np.cos(t)]])


class Scene:
    def __init__(self, c, r):
        self.c, self.r = c, r
        self.nid = r.choice([0, 0, 0, 1000000])
        self.g = F.FactorGraph()
        self.P, self.L, self.Q, self.G, self.other = [], [], [], [], []
        self.facs = []   # (kind, variables, data)
        self.scale = 10 ** r.uniform(-1, 2.5)
        self.center = self.v(3, self.scale * r.choice([0, 0, 3]))
        self.span = r.random() < 0.9
        self.opt = None

    def id(self):
        self.nid += self.r.choice([1, 1, 1, 7])
        return self.nid

    def v(self, n, s=1.0):
        return np.array([self.r.gauss(0, s) for _ in range(n)])

    def pos(self):
        return self.center + (self.v(3, self.scale) if self.span else 0)

    def unit(self):
        x = self.v(3)
        return x / np.linalg.norm(x)

    def sig(self):
        return self.r.uniform(0.05, 2)

    def rotvec(self):
        k = self.r.randrange(5)
        return self.unit() * (0.0 if k == 0 else self.r.uniform(0, 3.1))

    def build(self):
        r = self.r
        if r.random() < 0.03:
            self.mix = (0, 0, 0, 0)
        else:
            self.mix = tuple(r.choice([0, 1, r.randrange(1, 6)]) for _ in range(4))
        todo = ["P"] * self.mix[0] + ["L"] * self.mix[1] + ["Q"] * self.mix[2] + ["G"] * self.mix[3]
        todo += r.choice([[], [], ["3"], ["R"], ["I"], ["N"], ["3", "R", "I", "N", "6"]])
        r.shuffle(todo)
        order = []
        for k in todo:
            i = self.id()
            if k == "P":
                w, x = self.rotvec(), self.pos()
                o = F.PoseVariable(i, np.r_[x, w]) if r.random() < 0.5 else F.PoseVariable(i, x, rodrigues(w))
                self.P.append(o)
            elif k == "L":
                o = F.LandmarkVariable(i, self.pos())
                self.L.append(o)
            elif k == "Q":
                o = F.Pose2DVariable(i, np.r_[self.pos()[:2], r.uniform(-3.14, 3.14) if r.random() < 0.9 else r.uniform(-30, 30)])
                self.Q.append(o)
            elif k == "G":
                o = F.GenericVariable(i, self.pos()[:2])
                self.G.append(o)
            elif k in "36":
                o = F.GenericVariable(i, self.v(int(k)))
                self.other.append(o)
            elif k == "R":
                o = F.RotationVariable(i, rodrigues(self.rotvec()))
                self.other.append(o)
            elif k == "I":
                o = F.InverseRangeVariable(i, self.pos(), self.unit(), r.uniform(1, 9))
                self.other.append(o)
            else:
                o = F.PlaneVariable(i, self.unit(), r.uniform(-2, 2))
                self.other.append(o)
            if r.random() < 0.15:
                o.set_constant(True)
            order.append(o)
        for o in order:
            self.g.add_variable(o)
        self.vars = order
        for _ in range(r.randrange(0, 9)):
            self.factor()
        self.priors = r.random() < 0.6
        if self.priors:
            for o in order:
                if isinstance(o, F.PoseVariable):
                    self.g.add_factor(F.PosePositionPriorFactor(self.id(), o, o.pos_W() + self.v(3, 0.05), self.sig()))
                    self.g.add_factor(F.PoseOrientationPriorFactor(self.id(), o, o.dcm_CW(), self.sig()))
                elif isinstance(o, F.Pose2DVariable):
                    self.g.add_factor(F.Pose2DPriorFactor(self.id(), o, o.value() + self.v(3, 0.05), self.sig(), self.sig()))
                elif isinstance(o, F.RotationVariable):
                    self.g.add_factor(F.RotationPriorFactor(self.id(), o, o.dcm_AB(), self.sig()))
                elif not isinstance(o, F.PlaneVariable):
                    self.g.add_factor(F.GenericPriorFactor(self.id(), o, np.array(o.value()), self.sig()))

    def two(self, s):
        return (self.r.choice(s), self.r.choice(s)) if len(s) < 2 else tuple(self.r.sample(s, 2))

    def factor(self):
        r, s, i = self.r, self.sig(), self.id()
        P, L, Q, G = self.P, self.L, self.Q, self.G
        k = r.randrange(12)
        f = None
        vs = d = ()
        kind = ""
        if k == 0 and P and L:
            p, l, b = r.choice(P), r.choice(L), self.unit()
            f, kind, vs, d = F.BearingObservationFactor(i, p, l, b, s), "bearing", (p, l), b
        elif k == 1 and P and L:
            p, l = r.choice(P), r.choice(L)
            b = rodrigues(self.v(3, 0.05)) @ (p.dcm_CW() @ (l.pos_W() - p.pos_W()))
            if np.linalg.norm(b) > 1e-6:
                b = b / np.linalg.norm(b)
                f, kind, vs, d = F.BearingProjectionFactor2D(i, p, l, b, s), "bearing", (p, l), b
        elif k in (2, 3) and Q and G:
            q, g = r.choice(Q), r.choice(G)
            if r.random() < 0.5:
                # close to what is seen from there
                x = g.value() - q.pos_2d()
                b = np.arctan2(x[1], x[0]) - q.theta() + r.gauss(0, 0.02)
            else:
                b = r.uniform(-3.1, 3.1)
            if k == 2:
                f, kind, vs, d = F.BearingObservationFactor2D(i, q, g, b, s), "bearing2", (q, g), b
            else:
                rg = max(1e-3, np.linalg.norm(g.value() - q.pos_2d()) * r.uniform(0.5, 1.5))
                f, kind, vs, d = F.RangeBearingFactor2D(i, q, g, rg, b, s, s), "rangebearing", (q, g), (rg, b)
        elif k == 4 and len(Q) > 1:
            a, b = self.two(Q)
            m = F.GenericVariable(self.id(), self.v(3))
            m.set_constant(True)
            self.g.add_variable(m)
            self.vars.append(m)
            f, kind, vs = F.Pose2DBetweenFactor(i, a, b, m, s, s, False), "between", (a, b)
        elif k == 5 and len(P) > 1:
            a, b = self.two(P)
            m = F.GenericVariable(self.id(), self.v(3))
            m.set_constant(r.random() < 0.8)
            self.g.add_variable(m)
            self.vars.append(m)
            self.other.append(m)
            f, kind, vs = F.PosePositionBetweenFactor(i, a, b, m, s, r.random() < 0.5), "between", (a, b)
        elif k == 6 and len(P) > 1:
            a, b = self.two(P)
            m = F.RotationVariable(self.id(), rodrigues(self.rotvec()))
            m.set_constant(r.random() < 0.8)
            self.g.add_variable(m)
            self.vars.append(m)
            self.other.append(m)
            f, kind, vs = F.PoseOrientationBetweenFactor(i, a, b, m, s), "between", (a, b)
        elif k == 7 and len(Q) > 1:
            # a generic constraint between poses
            a, b = self.two(Q)
            m = F.GenericVariable(self.id(), self.v(3))
            m.set_constant(True)
            self.g.add_variable(m)
            self.vars.append(m)
            f, kind, vs = F.GenericBetweenFactor(i, a, b, m, s), "between", (a, b)
        elif k == 8 and len(G) > 1:
            # between landmarks: nothing to draw
            a, b = self.two(G)
            m = F.GenericVariable(self.id(), self.v(2) + 0)
            m.set_constant(True)
            self.g.add_variable(m)
            self.vars.append(m)
            G.append(m)   # (a variable of size 2 counts as a landmark)
            f, kind, vs = F.GenericBetweenFactor(i, a, b, m, s), "none", (a, b)
        elif k == 9:
            I = [o for o in self.other if isinstance(o, F.InverseRangeVariable)]
            if P and I:
                f, kind = F.InverseRangeBearingFactor(i, r.choice(P), r.choice(I), self.unit(), s), "none"
        elif k == 10:
            N = [o for o in self.other if isinstance(o, F.PlaneVariable)]
            if L and N:
                f, kind = F.PlaneFactor(i, r.choice(L), r.choice(N), s), "none"
            elif N:
                f, kind = F.PlanePriorFactor(i, r.choice(N), self.unit(), 1.0, s, s), "none"
        elif k == 11 and L:
            f, kind = F.GenericPriorFactor(i, r.choice(L), self.pos(), s), "none"
        if f is not None:
            self.g.add_factor(f)
            self.facs.append((kind, vs, d))
            self.c.count("factor:" + type(f).__name__)

    # ---- what has to be there
    def expect_lines(self, want_m, want_b):
        out = []
        for kind, vs, d in self.facs:
            if kind == "bearing" and want_m:
                p, l = vs[0].pos_W(), vs[1].pos_W()
                out.append(("bearing", p, p + np.linalg.norm(l - p) * (vs[0].dcm_CW().T @ d)))
            elif kind == "bearing2" and want_m:
                p, l = vs[0].pos_2d(), vs[1].value()
                e = p + np.linalg.norm(l - p) * (rot2(vs[0].theta() + d) @ [1, 0])
                out.append(("bearing2", np.r_[p, 0], np.r_[e, 0]))
            elif kind == "rangebearing" and want_m:
                p = vs[0].pos_2d()
                e = p + d[0] * (rot2(vs[0].theta() + d[1]) @ [1, 0])
                out.append(("rangebearing", np.r_[p, 0], np.r_[e, 0]))
            elif kind == "between" and want_b:
                e = [v.pos_W() if isinstance(v, F.PoseVariable) else np.r_[v.pos_2d(), 0] for v in vs]
                out.append(("between", e[0], e[1]))
        return out

    def state(self):
        s = {}
        for v in self.g.get_all_variables():
            s["var%d" % v.id()] = (np.array(v.value()), v.is_constant(), v.name())
        s["ids"] = [v.id() for v in self.g.get_all_variables()] + [f.id() for f in self.g.get_all_factors()]
        s["sizes"] = (self.g.num_values(), self.g.num_residuals())
        for n in ("get_variable_vector", "compute_full_residual_vector", "compute_full_jacobian_matrix"):
            try:
                s[n] = np.array(getattr(self.g, n)())
            except RuntimeError as e:
                s[n] = str(e)
        if self.opt:
            for w in ("initial_stats", "current_stats"):
                x = getattr(self.opt, w)
                s[w] = (x.valid, str(x.status), x.chi2, x.current_iteration, x.delta_norm, x.residual_norm, x.rank, x.damping_parameter)
            t = self.opt.settings()
            s["settings"] = tuple(repr(getattr(t, a)) for a in dir(t) if not a.startswith("_"))
        return s

    def covs(self):
        out = {}
        self.opt.prepare_to_estimate_covariances()
        for v in self.g.get_all_variables():
            P, ok = self.opt.estimate_covariance(v)
            out[v.id()] = np.array(P) if ok else None
        return out


def equal(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and np.array_equal(a, b, equal_nan=True)
    return a == b or (a != a and b != b)


def remove_match(rest, want, ok):
    """Takes one element of rest that is ok for want."""
    for i, x in enumerate(rest):
        if ok(x, want):
            del rest[i]
            return True
    return False


def axes_state(ax, is3d):
    """Drawn geometry, by kind."""
    pts, lines, quivers, surfaces, ellipses, arrows, unknown = [], [], [], [], [], [], []
    for a in ax.collections:
        if isinstance(a, Path3DCollection):
            x = np.array([np.ma.getdata(q) for q in a._offsets3d]).T
            pts.append((a.get_label(), x, a))
        elif isinstance(a, Line3DCollection):
            quivers.append(np.array(a._segments3d))
        elif isinstance(a, Poly3DCollection):
            surfaces.append(np.array(a._vec[:3]).T)
        elif isinstance(a, PathCollection):
            pts.append((a.get_label(), np.array(np.ma.getdata(a.get_offsets())), a))
        else:
            unknown.append(type(a).__name__)
    for a in ax.lines:
        if is3d:
            x = np.array(a.get_data_3d(), float).T
        else:
            x = np.array(a.get_data(), float).T
        if x.size:
            lines.append(x)
    for a in ax.patches:
        if isinstance(a, Ellipse):
            ellipses.append(a)
        elif isinstance(a, FancyArrow):
            arrows.append(np.array(a.get_xy()))
        else:
            unknown.append(type(a).__name__)
    return pts, lines, quivers, surfaces, ellipses, arrows, unknown


def plot(c, r, s):
    is3d = r.random() < 0.5
    kw = {}
    if not is3d or r.random() < 0.5:
        kw["plot_3d"] = is3d
    want_m, want_b, want_c = True, True, False
    if r.random() < 0.5:
        want_m = kw["plot_measurements"] = r.random() < 0.6
    if r.random() < 0.5:
        want_b = kw["plot_between_factors"] = r.random() < 0.6
    covs = None
    state = s.state()
    if r.random() < 0.6:
        want_c = kw["plot_covariance"] = r.random() < 0.8
    if s.opt is not None and r.random() < 0.8:
        kw["optimizer"] = s.opt
        try:
            covs = s.covs()
        except RuntimeError:
            raise pyvp.Skip  # (a measurement that cannot be evaluated here)
        c.check(equal(state, s.state()), "harness", "covariances changed the state")
    own = r.random() < 0.3
    if own:
        fig = plt.figure()
        ax0 = fig.add_subplot(111, projection="3d" if is3d else None)
        kw["axis_handle"] = ax0
        mark = None
        if r.random() < 0.3:
            mark, = ax0.plot([float(s.center[0])], [float(s.center[1])], *([[float(s.center[2])]] if is3d else []))
    nfig = len(plt.get_fignums())
    how = "%s, %d poses %d landmarks %d 2D poses %d 2D landmarks" % (
        {k: v for k, v in kw.items() if k not in ("axis_handle", "optimizer")}, len(s.P), len(s.L), len(s.Q), len(s.G))
    c.evals += 1
    try:
        ax = F.PlotFactorGraph(s.g, **kw)
        if r.random() < 0.2:
            ax.figure.canvas.draw()
            c.count("rendered")
    except Exception as e:
        c.viol("raised", "PlotFactorGraph(%s, optimizer: %s) raised %r" % (how, s.opt is not None, e))
        plt.close("all")
        return
    bad = lambda key, msg: c.viol(key, "%s: %s" % (how, msg))
    c.count("plot3d" if is3d else "plot2d")
    if want_c:
        c.count("plot-covariance")
    # ---- nothing changed
    after = s.state()
    for k in state:
        if not equal(state[k], after.get(k)):
            bad("changed:" + k.rstrip("0123456789"), "%s was %s, is %s" % (k, state[k], after.get(k)))
    if covs is not None and not equal(covs, s.covs()):
        bad("changed:covariance", "estimated covariances changed")
    if own:
        c.check(ax is ax0 and len(plt.get_fignums()) == nfig, "axis-handle", how + ": the axes given were not the ones used")
    else:
        c.check(len(plt.get_fignums()) == nfig + 1, "axis-handle", how + ": not exactly one figure created")
    c.check((ax.name == "3d") == is3d, "axis-kind", how + ": axes are " + ax.name)
    # ---- the drawing
    pts, lines, quivers, surfaces, ellipses, arrows, unknown = axes_state(ax, is3d)
    if own and mark is not None:
        lines = [x for x in lines if len(x) != 1]
    D = 3 if is3d else 2
    cut = lambda x: np.asarray(x, float)[:D]
    tol = 1e-9 * (1 + s.scale + abs(s.center).max()) * 10
    near = lambda a, b: np.abs(np.asarray(a, float) - b).max() <= tol
    c.check(not unknown, "unknown-artist", lambda: how + ": " + str(unknown))
    groups = {"3D Poses": [o.pos_W() for o in s.P], "3D Landmarks": [o.pos_W() for o in s.L],
              "2D Poses": [np.r_[o.pos_2d(), 0] for o in s.Q], "2D Landmarks": [np.r_[o.value(), 0] for o in s.G]}
    seen = {}
    for label, x, a in pts:
        seen.setdefault(label, []).extend(list(x))
        if not a.get_visible() or (a.get_facecolor().size and a.get_facecolor()[0][3] == 0):
            bad("invisible", label)
    for label, want in groups.items():
        got = seen.pop(label, [])
        c.count("points:" + label, len(want))
        if len(got) != len(want):
            bad("points:" + label, "%d drawn, %d in the graph" % (len(got), len(want)))
            continue
        for w in want:
            if not remove_match(got, cut(w), near):
                bad("points:" + label, "nothing drawn at %s; drawn: %s" % (cut(w), got[:6]))
                break
        lim = [ax.get_xlim(), ax.get_ylim()] + ([ax.get_zlim()] if is3d else [])
        for w in want:
            if any(not (min(l) - tol <= x <= max(l) + tol) for x, l in zip(w, lim)):
                bad("out-of-view", "%s is outside of the axes' limits %s" % (w[:D], lim))
                break
    c.check(not seen, "points:extra", lambda: how + ": %s" % list(seen))
    # orientation arrows
    want = []
    if is3d:
        for o in s.P:
            R = rodrigues(o.rot_CW())
            want += [(o.pos_W(), R[k]) for k in range(3)]
        lengths = []

        def isarrow(q, w):
            # a shaft that starts at the pose and head lines that meet at its tip
            a, b = q[0] if near(q[0][0], w[0]) else q[0][::-1]
            n = np.linalg.norm(b - a)
            if n > 1e-6 and near(a, w[0]) and np.abs((b - a) / n - w[1]).max() < 1e-7 + tol / n and len(q) >= 3 and all(
                    near(h[0], b) or near(h[1], b) for h in q[1:]):
                lengths.append(n)
                return True
            return False
        got = list(quivers)
        c.count("arrows3d", len(want))
    else:
        for o in s.Q:
            want.append((o.pos_2d(), rot2(o.theta()) @ [1, 0]))

        def isarrow(xy, w):
            d = xy - w[0]
            along = d @ w[1]
            across = d @ [-w[1][1], w[1][0]]
            n = along.max()
            tip = across[np.argmax(along)]
            t = 1e-7 * n + tol
            # it starts at the pose, its tip lies on the ray, and it is symmetric about it
            return n > 1e-6 and abs(along.min()) <= t and abs(tip) <= t and abs(across.max() + across.min()) <= t and across.max() > 0
        got = list(arrows)
        c.count("arrows2d", len(want))
    if len(got) != len(want):
        bad("arrows", "%d orientation arrows, expected %d" % (len(got), len(want)))
    else:
        for w in want:
            if not remove_match(got, w, isarrow):
                bad("arrows", "no arrow from %s along %s; drawn: %s" % (w[0], w[1], got[:3]))
                break
        if is3d and want and lengths and max(lengths) - min(lengths) > 1e-6 * max(lengths) + tol:
            bad("arrows", "arrows of different lengths: %s" % lengths)
    # measurements and between factors
    rest = list(lines)
    expect = s.expect_lines(want_m, want_b)
    for kind, a, b in expect:
        c.count("line:" + kind)
        if not remove_match(rest, (cut(a), cut(b)), lambda x, w: len(x) == 2 and (near(x, np.array(w)) or near(x[::-1], np.array(w)))):
            bad("line:" + kind, "no line from %s to %s; drawn: %s" % (cut(a), cut(b), [x.tolist() for x in rest[:5]]))
    if rest:
        bad("line:extra", "%d lines more than measurements, e.g. %s" % (len(rest), rest[0].tolist()))
    # covariances
    want = []
    if want_c and covs is not None:
        for o in s.P + s.L + ([] if is3d else s.Q + s.G):
            P = covs.get(o.id())
            if P is not None and np.linalg.eigvalsh(P[:D, :D]).min() > 1e-13 * abs(P[:D, :D]).max():
                x = o.value()[:2] if isinstance(o, F.GenericVariable) else o.pos_2d() if isinstance(o, F.Pose2DVariable) else o.pos_W()[:D]
                want.append((x, P[:D, :D]))
            elif P is not None:
                return plt.close("all")
    c.count("regions", len(want))
    if is3d:
        def isregion(p, w):
            d = p - w[0]
            m = np.einsum("ij,jk,ik->i", d, np.linalg.inv(w[1]), d)
            e = 1e-6 + 10 * tol / np.sqrt(np.linalg.eigvalsh(w[1]).min())
            # one sigma, all around
            return np.abs(m - 1).max() < e and (np.linalg.eigvalsh(d.T @ d).min() > 0)
        got = list(surfaces)
    else:
        def isregion(e, w):
            R = rot2(np.radians(e.angle))
            C = R @ np.diag([e.width ** 2 / 4, e.height ** 2 / 4]) @ R.T
            return near(e.center, w[0]) and np.abs(C - w[1]).max() < 1e-6 * np.abs(w[1]).max()
        got = list(ellipses)
    if len(got) != len(want):
        bad("regions", "%d covariance regions, expected %d" % (len(got), len(want)))
    else:
        for w in want:
            if not remove_match(got, w, isregion):
                bad("regions", "no one-sigma region at %s for %s" % (w[0], w[1].tolist()))
                break
    c.cover(hash((how, tuple(np.round(x, 9).tobytes() for x in lines), tuple(np.round(p[1], 9).tobytes() for p in pts))))
    plt.close("all")


def case(c, r):
    plt.close("all")
    s = Scene(c, r)
    s.build()
    plot(c, r, s)
    if r.random() < 0.7:
        try:
            s.g.finalize_structure()
            c.count("finalized")
        except RuntimeError:
            return
        if r.random() < 0.3:
            plot(c, r, s)
        if s.vars and r.random() < 0.85:
            s.opt = F.SparseOptimizer()
            t = F.OptimizerSettings()
            t.method = r.choice([F.OptimizerMethod.GaussNewton, F.OptimizerMethod.LevenbergMarquardt])
            t.max_num_iterations = r.randrange(1, 6)
            s.opt.setup(s.g, t)
            if r.random() < 0.85:
                s.opt.optimize()
                c.count("optimized")
                if not all(np.isfinite(v.value()).all() for v in s.vars):
                    return
            else:
                c.count("set-up-only")
        plot(c, r, s)
        for v in s.vars:
            if r.random() < 0.3 and not isinstance(v, F.PlaneVariable):
                v.apply_increment(s.v(v.size(), 0.05))
        plot(c, r, s)
    if len(c.samples) < 3:
        c.samples.append("%s %s" % (s.mix, " ".join(f[0] for f in s.facs)))


pyvp.loop("P25", n_cases, case)
sys.stdout.flush()
