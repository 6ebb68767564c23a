// P03: variables always describe one valid state, whatever the call history.
#include "varops.hpp"

namespace vp
{
    const char *kProperty = "P03";
    long n_cases(bool t) { return t ? 200000 : 20000; }

    static bool invariants(Ctx& c, const Variable& v, VK k, const std::string& hist)
    {
        bool ok = true;
        const std::string n = vkName(k);
        auto ck = [&](bool b, const char *key, const std::string& m) { ok &= c.check(b, n + ":" + key, m + " after " + hist); };
        auto orth = [&](const Eigen::Matrix3d& R) {
            double e = (R * R.transpose() - Eigen::Matrix3d::Identity()).cwiseAbs().maxCoeff();
            ck(e < 1e-12 && R.determinant() > 0.5, "orthonormal", str("R R^T - I = ", e, " det ", R.determinant()));
        };
        ck(v.value().size() == v.size(), "size", "value() size differs from size()");
        if (auto *p = dynamic_cast<const PoseVariable *>(&v)) {
            orth(p->dcm_CW());
            ck(p->pos_W() == p->value().head<3>() && p->rot_CW() == p->value().tail<3>(), "parts", "pos/rot differ from value()");
            L t = p->rot_CW().norm();
            L e = (refExp(V3L(p->rot_CW().cast<L>())) - p->dcm_CW().cast<L>()).cwiseAbs().maxCoeff();
            ck(e < 1e-13L * (10 + t) + (t < 1e-8L ? 2e-8L : 0), "matrix-of-vector", str("exp(rot) - dcm = ", (double)e, " angle ", (double)t));
        } else if (auto *p = dynamic_cast<const RotationVariable *>(&v)) {
            orth(p->rotation());
            L t = p->value().norm();
            L d = std::max(1e-12L, std::fabs(PIL - t));
            L e = (refExp(V3L(p->value().cast<L>())) - p->rotation().cast<L>()).cwiseAbs().maxCoeff();
            ck(e < 1e-12L + std::min(5e-9L, 4e-15L / (d * d)), "matrix-of-vector", str("exp(value) - rotation = ", (double)e, " angle ", (double)t));
        } else if (auto *p = dynamic_cast<const LandmarkVariable *>(&v)) {
            ck(p->pos_W() == p->value(), "parts", "pos_W differs from value()");
        } else if (auto *p = dynamic_cast<const Pose2DVariable *>(&v)) {
            double th = p->theta();
            ck(std::fabs(th) <= 3.1415926535897936, "heading-range", str("theta ", th));
            ck(p->pos_2d() == p->value().head<2>() && th == p->value()[2], "parts", "pos/theta differ from value()");
            Eigen::Matrix2d R;
            R << std::cos(th), -std::sin(th), std::sin(th), std::cos(th);
            ck((R - p->dcm_2d()).cwiseAbs().maxCoeff() < 1e-15, "matrix-of-angle", "dcm_2d is not the rotation by theta");
        } else if (auto *p = dynamic_cast<const PlaneVariable *>(&v)) {
            ck(std::fabs(p->unit_vector().norm() - 1) < 1e-14, "unit-normal", str("norm ", p->unit_vector().norm()));
            ck(p->unit_vector() == p->value().head<3>() && p->distance_from_origin() == p->value()[3], "parts",
               str("value ", mstr(p->value().transpose()), " normal ", mstr(p->unit_vector().transpose()), " d ", p->distance_from_origin()));
            Vector3d q(0.3, -2, 5);
            ck(std::fabs(p->distance_from_point(q) - (p->unit_vector().dot(q) + p->distance_from_origin())) <=
                   1e-14 * (10 + std::fabs(p->distance_from_origin())), "point-distance", "distance_from_point is not n.p + d");
        } else if (auto *p = dynamic_cast<const InverseRangeVariable *>(&v)) {
            double w = p->inverse_range();
            ck(w >= p->minimum_inverse_range_ && w <= p->maximum_inverse_range_, "limits", str("inverse range ", w));
            ck(w == p->value()[0], "parts", "value differs from inverse_range");
            ck(std::fabs(p->bearing_W().norm() - 1) < 1e-14, "bearing-norm", str("norm ", p->bearing_W().norm()));
            Vector3d q = p->origin_pos_W() + p->bearing_W() / w;
            ck((q - p->pos_W()).cwiseAbs().maxCoeff() <= 1e-14 * (1 / w + p->origin_pos_W().norm()), "position", "pos_W is not origin + bearing / inverse range");
        }
        return ok;
    }

    void run_case(Ctx& c)
    {
        Rng& r = c.rng;
        VK k = (VK)(c.idx % 7);
        VarSpec s = genVar(r, k, r.range(-100, 100));
        if (k == IR && r.p(0.2)) s.init[6] = r.p(0.5) ? r.logu(1e-6, 1e-3) : r.logu(1e6, 1e9); // beyond the limits
        s.c = r.p(0.3);
        auto v = makeVar(s);
        const int id = s.id;
        std::string hist = str("construction ", vkName(k), mstr(s.init.transpose()), " ctor ", s.ctor);
        if (!invariants(c, *v, k, hist)) return;
        {
            RVar a = initialState(s), b = RVar::of(*v);
            L e = a.k == IR ? (a.v - b.v).norm() / a.v[0] + (a.brg - b.brg).norm() + (a.org - b.org).norm() : a.dist(b);
            L tol = 1e-13L * (10 + (s.init.size() ? (L)s.init.cwiseAbs().maxCoeff() : 0)) + (k == POSE ? 2e-8L : 0);
            c.check(e <= tol, str(vkName(k), ":construction"), str("distance from the given state ", (double)e, " ", hist));
        }
        const int ops = c.thorough ? r.range(20, 200) : r.range(10, 60);
        for (int i = 0; i < ops; i++) {
            VarOp o = genOp(r, k, v->size());
            if (k == P2 && r.p(0.02) && (o.t == VarOp::SET || o.t == VarOp::INC || o.t == VarOp::THETA)) { // headings of any magnitude
                o.x[o.t == VarOp::THETA ? 0 : 2] = (r.p(0.5) ? 1 : -1) * r.logu(1e3, 1e300);
                c.count("huge-heading");
            }
            if (k == PLANE && o.t == VarOp::INC) { // the incremented normal must not vanish
                if ((v->value().head(3) + o.x.head(3)).norm() < 0.05) continue;
            }
            RVar b = RVar::of(*v);
            VectorXd before = varBits(*v);
            bool refused = applyOp(o, *v);
            hist = str("step ", i, " ", o.describe(), " on value ", mstr(b.toValue().transpose()));
            c.eval();
            c.count(str(vkName(k), ".", o.describe().substr(0, o.describe().find('['))));
            if (o.t == VarOp::BADSET || o.t == VarOp::BADINC) {
                c.check(refused, str(vkName(k), ":wrong-size-accepted"), hist);
                c.check(sameBits(before, varBits(*v)), str(vkName(k), ":wrong-size-changed"), hist);
            } else {
                c.check(!refused, str(vkName(k), ":refused"), hist);
                RVar e = b;
                L extra = 0;
                switch (o.t) {
                case VarOp::INC: e.plus(o.x.cast<L>()); break;
                case VarOp::SET:
                case VarOp::POSEVEC: {
                    if (k == IR) {
                        e.v[0] = o.x[0];
                        e.plus(VecL::Zero(1));
                    } else if (k == ROT) e.R = refExp(V3L(o.x.cast<L>()));
                    else if (k == POSE) {
                        e.v = o.x.head(3).cast<L>();
                        e.R = refExp(V3L(o.x.tail(3).cast<L>()));
                    } else {
                        e.v = o.x.cast<L>();
                        e.plus(VecL::Zero(e.dof()));
                    }
                    break;
                }
                case VarOp::POS: e.v.head(o.x.size()) = o.x.cast<L>(); break;
                case VarOp::ROTM: e.R = refOrtho(o.R.cast<L>()); break;
                case VarOp::THETA: e.v[2] = refWrap((L)o.x[0]); break;
                case VarOp::LIMITS:
                    e.lo = o.x[0];
                    e.hi = o.x[1];
                    e.plus(VecL::Zero(1));
                    break;
                default: break;
                }
                RVar a = RVar::of(*v);
                // near pi the reported rotation vector itself is only this accurate
                if (k == POSE || k == ROT) {
                    L t = refLog(e.R).norm(), d = std::max(1e-12L, PIL - t);
                    extra = 1e-12L + std::min(5e-9L, 4e-15L / (d * d));
                    if (k == POSE && t < 2.1e-8L) extra += 2e-8L;
                }
                L m = 1;
                for (int q = 0; q < e.v.size(); q++)
                    m = std::max({m, std::fabs(e.v[q]), std::fabs(b.v[q])});
                if (o.x.size()) m = std::max(m, (L)o.x.cwiseAbs().maxCoeff());
                L dist = k == IR ? std::fabs(a.v[0] - e.v[0]) : a.dist(e);
                c.check(dist <= 1e-14L * m + extra, str(vkName(k), ":", o.describe().substr(0, o.describe().find('['))),
                        str("distance from the expected state ", (double)dist, " after ", hist, "; value now ", mstr(v->value().transpose())));
                if (k == IR) c.check((a.org - b.org).norm() == 0 && (a.brg - b.brg).norm() == 0, "InverseRange:anchor-moved", hist);
                if (o.t == VarOp::CONST) c.check(v->is_constant() == o.flag, str(vkName(k), ":constant-flag"), hist);
                // operations touch only what they are about
                if (k == POSE && o.t == VarOp::POS) c.check((a.R - b.R).norm() == 0, "Pose:set_pos-turned", hist);
                if (k == POSE && o.t == VarOp::ROTM) c.check((a.v - b.v).norm() == 0, "Pose:set_dcm-moved", hist);
                if (k == P2 && o.t == VarOp::POS) c.check(a.v[2] == b.v[2], "Pose2D:set_pos-turned", hist);
                if (k == P2 && o.t == VarOp::THETA) c.check(a.v[0] == b.v[0] && a.v[1] == b.v[1], "Pose2D:set_theta-moved", hist);
            }
            c.check(v->id() == id, str(vkName(k), ":id"), hist);
            if (!invariants(c, *v, k, hist)) return;
            Hash h;
            h.u(k);
            h.u(o.t);
            h.m(v->value());
            c.cover(h.h);
            if (c.want_sample() && i == 5) c.sample(hist + str(" -> ", mstr(v->value().transpose())));
        }
    }
} // namespace vp
