#include "model.hpp"
#include "factorama/bearing_observation_factor.hpp"
#include "factorama/bearing_observation_factor_2d.hpp"
#include "factorama/bearing_projection_factor_2d.hpp"
#include "factorama/coordinate_transform_factor.hpp"
#include "factorama/generic_between_factor.hpp"
#include "factorama/generic_prior_factor.hpp"
#include "factorama/generic_variable.hpp"
#include "factorama/inverse_range_bearing_factor.hpp"
#include "factorama/inverse_range_variable.hpp"
#include "factorama/landmark_variable.hpp"
#include "factorama/linear_velocity_factor.hpp"
#include "factorama/plane_factor.hpp"
#include "factorama/plane_prior_factor.hpp"
#include "factorama/plane_variable.hpp"
#include "factorama/pose_2d_between_factor.hpp"
#include "factorama/pose_2d_prior_factor.hpp"
#include "factorama/pose_2d_variable.hpp"
#include "factorama/pose_between_factors.hpp"
#include "factorama/pose_prior_factors.hpp"
#include "factorama/pose_variable.hpp"
#include "factorama/range_bearing_factor_2d.hpp"
#include "factorama/rotation_prior_factor.hpp"
#include "factorama/rotation_variable.hpp"

namespace vp
{
    // ------------------------------------------------------------------ SO(3), through unit quaternions
    typedef Eigen::Matrix<L, 4, 1> Q4; // w x y z
    static M3L q2r(const Q4& q)
    {
        L w = q[0], x = q[1], y = q[2], z = q[3];
        M3L R;
        R << w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z),
            w * w - x * x + y * y - z * z, 2 * (y * z - w * x), 2 * (x * z - w * y), 2 * (y * z + w * x),
            w * w - x * x - y * y + z * z;
        return R;
    }
    static Q4 r2q(const M3L& R)
    {
        L c[4] = {1 + R(0, 0) + R(1, 1) + R(2, 2), 1 + R(0, 0) - R(1, 1) - R(2, 2), 1 - R(0, 0) + R(1, 1) - R(2, 2),
                  1 - R(0, 0) - R(1, 1) + R(2, 2)};
        int b = 0;
        for (int i = 1; i < 4; i++)
            if (c[i] > c[b]) b = i;
        Q4 q;
        L s = std::sqrt(c[b]) * 2; // 4*q_b
        if (b == 0) q << s / 4, (R(2, 1) - R(1, 2)) / s, (R(0, 2) - R(2, 0)) / s, (R(1, 0) - R(0, 1)) / s;
        if (b == 1) q << (R(2, 1) - R(1, 2)) / s, s / 4, (R(0, 1) + R(1, 0)) / s, (R(0, 2) + R(2, 0)) / s;
        if (b == 2) q << (R(0, 2) - R(2, 0)) / s, (R(0, 1) + R(1, 0)) / s, s / 4, (R(1, 2) + R(2, 1)) / s;
        if (b == 3) q << (R(1, 0) - R(0, 1)) / s, (R(0, 2) + R(2, 0)) / s, (R(1, 2) + R(2, 1)) / s, s / 4;
        return q / q.norm();
    }
    M3L refOrtho(const M3L& R) { return q2r(r2q(R)); }
    M3L refExp(const V3L& w)
    {
        L t = w.norm(), h = t / 2;
        L sc = t < 1e-6L ? 0.5L - t * t / 48 : std::sin(h) / t;
        Q4 q;
        q << std::cos(h), sc * w[0], sc * w[1], sc * w[2];
        return q2r(q / q.norm());
    }
    V3L refLog(const M3L& R)
    {
        Q4 q = r2q(R);
        if (q[0] < 0) q = -q;
        V3L v(q[1], q[2], q[3]);
        L n = v.norm();
        if (n < 1e-18L) return 2 * v;
        return v * (2 * std::atan2(n, q[0]) / n);
    }
    M3L refSkew(const V3L& v)
    {
        M3L m;
        m << 0, -v[2], v[1], v[2], 0, -v[0], -v[1], v[0], 0;
        return m;
    }
    L refWrap(L a) { return std::atan2(std::sin(a), std::cos(a)); }

    const char *vkName(VK k)
    {
        static const char *n[] = {"Generic", "Landmark", "Rotation", "Pose", "Pose2D", "Plane", "InverseRange"};
        return n[k];
    }
    const char *fkName(FK k)
    {
        static const char *n[] = {"GenericPrior",      "GenericBetween",     "LinearVelocity",  "PosePositionPrior",
                                  "PoseOrientationPrior", "RotationPrior",   "PosePositionBetween",
                                  "PoseOrientationBetween", "BearingObservation", "InverseRangeBearing",
                                  "BearingProjection2D", "BearingObservation2D", "RangeBearing2D", "Pose2DPrior",
                                  "Pose2DBetween",     "Plane",              "PlanePrior",      "CoordinateTransform"};
        return n[k];
    }

    // ------------------------------------------------------------------ states
    void RVar::plus(const VecL& dx)
    {
        switch (k) {
        case GEN:
        case LM: v += dx; break;
        case ROT: R = refOrtho(refExp(V3L(dx.head(3))) * R); break;
        case POSE:
            v += dx.head(3);
            R = refOrtho(refExp(V3L(dx.segment(3, 3))) * R);
            break;
        case P2:
            v += dx;
            v[2] = refWrap(v[2]);
            break;
        case PLANE: {
            v += dx;
            V3L n = v.head(3);
            n /= n.norm();
            v.head(3) = n;
            break;
        }
        case IR:
            v += dx;
            v[0] = std::min(std::max(v[0], lo), hi);
            break;
        }
    }
    V3L RVar::pos() const
    {
        if (k == IR) return org + brg / v[0];
        return v.head(3);
    }
    VecL RVar::diff(const RVar& f) const
    {
        switch (k) {
        case ROT: return refLog(R * f.R.transpose());
        case POSE: {
            VecL d(6);
            d << (v - f.v), refLog(R * f.R.transpose());
            return d;
        }
        case P2: {
            VecL d = v - f.v;
            d[2] = refWrap(d[2]);
            return d;
        }
        default: return v - f.v;
        }
    }
    VectorXd RVar::toValue() const
    {
        if (k == ROT) return refLog(R).cast<double>();
        if (k == POSE) {
            VectorXd d(6);
            d << v.cast<double>(), refLog(R).cast<double>();
            return d;
        }
        return v.cast<double>();
    }
    RVar RVar::of(const Variable& var)
    {
        RVar r;
        r.id = var.id();
        r.c = var.is_constant();
        if (auto *p = dynamic_cast<const PoseVariable *>(&var)) {
            r.k = POSE;
            r.v = p->pos_W().cast<L>();
            r.R = refOrtho(p->dcm_CW().cast<L>());
        } else if (auto *p = dynamic_cast<const RotationVariable *>(&var)) {
            r.k = ROT;
            r.v = VecL(0);
            r.R = refOrtho(p->rotation().cast<L>());
        } else if (auto *p = dynamic_cast<const LandmarkVariable *>(&var)) {
            r.k = LM;
            r.v = p->pos_W().cast<L>();
        } else if (auto *p = dynamic_cast<const Pose2DVariable *>(&var)) {
            r.k = P2;
            r.v = VecL(3);
            r.v << (L)p->pos_2d()[0], (L)p->pos_2d()[1], (L)p->theta();
        } else if (auto *p = dynamic_cast<const PlaneVariable *>(&var)) {
            r.k = PLANE;
            r.v = VecL(4);
            r.v << p->unit_vector().cast<L>(), (L)p->distance_from_origin();
        } else if (auto *p = dynamic_cast<const InverseRangeVariable *>(&var)) {
            r.k = IR;
            r.v = VecL(1);
            r.v << (L)p->inverse_range();
            r.org = p->origin_pos_W().cast<L>();
            r.brg = p->bearing_W().cast<L>();
            r.lo = p->minimum_inverse_range_;
            r.hi = p->maximum_inverse_range_;
        } else {
            r.k = GEN;
            r.v = var.value().cast<L>();
        }
        return r;
    }
    RVar initialState(const VarSpec& s)
    {
        RVar r;
        r.k = s.k;
        r.id = s.id;
        r.c = s.c;
        switch (s.k) {
        case GEN:
        case LM: r.v = s.init.cast<L>(); break;
        case ROT:
            r.v = VecL(0);
            r.R = refExp(V3L(s.init.cast<L>()));
            break;
        case POSE:
            r.v = s.init.head(3).cast<L>();
            r.R = refExp(V3L(s.init.tail(3).cast<L>()));
            break;
        case P2:
            r.v = s.init.cast<L>();
            r.v[2] = refWrap(r.v[2]);
            break;
        case PLANE: {
            r.v = s.init.cast<L>();
            V3L n = r.v.head(3);
            n /= n.norm();
            r.v.head(3) = n;
            break;
        }
        case IR:
            r.org = s.init.head(3).cast<L>();
            r.brg = s.init.segment(3, 3).cast<L>();
            r.brg /= r.brg.norm();
            r.v = VecL(1);
            r.v[0] = std::min(std::max(1.0L / s.init[6], r.lo), r.hi);
            break;
        }
        return r;
    }
    std::vector<RVar> initialStates(const Spec& s)
    {
        std::vector<RVar> o;
        for (auto& v : s.vars)
            o.push_back(initialState(v));
        return o;
    }
    void setInit(VarSpec& s, const RVar& st)
    {
        if (s.k == IR) {
            s.init.head(3) = st.org.cast<double>();
            s.init.segment(3, 3) = st.brg.cast<double>();
            s.init[6] = (double)(1.0L / st.v[0]);
        } else
            s.init = st.toValue();
    }

    // ------------------------------------------------------------------ residuals
    static Eigen::Matrix<L, 2, 2> rot2(L t)
    {
        Eigen::Matrix<L, 2, 2> R;
        R << std::cos(t), -std::sin(t), std::sin(t), std::cos(t);
        return R;
    }
    int FacSpec::rdim(const std::vector<RVar>& all) const
    {
        switch (k) {
        case GP: return (int)p.size();
        case GB: return (int)all[v[2]].v.size();
        case LV: return (int)all[v[2]].v.size();
        case BP2:
        case RB2: return 2;
        case B2:
        case PL: return 1;
        case PLP: return 4;
        default: return 3;
        }
    }
    static L clampDepth(L x) { return x; }
    VecL FacSpec::residual(const std::vector<RVar>& all) const
    {
        auto V = [&](int i) -> const RVar& { return all[v[i]]; };
        const L w1 = 1.0L / s1, w2 = 1.0L / s2;
        VecL pl = p.cast<L>();
        switch (k) {
        case GP: return w1 * (V(0).v - pl);
        case GB: return w1 * (V(1).v - V(0).v - V(2).v);
        case LV: {
            int n = (int)V(2).v.size();
            return w1 * (V(1).v.segment(i0, n) - V(0).v.segment(i0, n) - V(2).v * (L)a);
        }
        case PPP: return w1 * (V(0).v - pl);
        case POP:
        case RP: return w1 * refLog(V(0).R * refExp(V3L(pl)).transpose());
        case PPB: {
            V3L d = V(1).v - V(0).v;
            if (local) d = V(0).R * d;
            return w1 * (d - V(2).v);
        }
        case POB: return w1 * refLog(V(1).R * V(0).R.transpose() * V(2).R);
        case BO:
        case IRB: {
            V3L d = V(0).R * (V(1).pos() - V(0).v);
            d /= d.norm();
            V3L o = pl;
            o /= o.norm();
            return w1 * (d - o);
        }
        case BP2: {
            V3L d = V(0).R * (V(1).pos() - V(0).v);
            V3L kk = pl;
            kk /= kk.norm();
            V3L ka = kk.cwiseAbs();
            V3L u = (ka[0] <= ka[1] && ka[0] <= ka[2]) ? V3L(1, 0, 0) : (ka[1] <= ka[2] ? V3L(0, 1, 0) : V3L(0, 0, 1));
            V3L t1 = u - kk.dot(u) * kk;
            t1 /= t1.norm();
            V3L t2 = kk.cross(t1);
            (void)clampDepth;
            d /= d.norm();
            VecL r(2);
            r << t1.dot(d), t2.dot(d);
            return w1 * r;
        }
        case B2: {
            Eigen::Matrix<L, 2, 1> d = rot2(V(0).v[2]).transpose() * (V(1).v.head(2) - V(0).v.head(2));
            VecL r(1);
            r << w1 * refWrap(std::atan2(d[1], d[0]) - pl[0]);
            return r;
        }
        case RB2: {
            Eigen::Matrix<L, 2, 1> d = rot2(V(0).v[2]).transpose() * (V(1).v.head(2) - V(0).v.head(2));
            VecL r(2);
            r << w1 * (d.norm() - pl[0]), w2 * refWrap(std::atan2(d[1], d[0]) - pl[1]);
            return r;
        }
        case P2P: {
            VecL r(3);
            r << w1 * (V(0).v[0] - pl[0]), w1 * (V(0).v[1] - pl[1]), w2 * refWrap(V(0).v[2] - pl[2]);
            return r;
        }
        case P2B: {
            Eigen::Matrix<L, 2, 1> d = V(1).v.head(2) - V(0).v.head(2);
            if (local) {
                if (legacy_local) d = rot2(V(0).v[2]) * d;
                else d = rot2(V(0).v[2]).transpose() * d;
            }
            VecL r(3);
            r << w1 * (d[0] - V(2).v[0]), w1 * (d[1] - V(2).v[1]), w2 * refWrap(V(1).v[2] - V(0).v[2] - V(2).v[2]);
            return r;
        }
        case PL: {
            V3L pt = V(0).pos();
            L d = V(1).v.head(3).dot(pt) + V(1).v[3];
            if (scaled) {
                V3L p0 = pl;
                d /= 1 + (pt - p0).norm() / (L)a;
            }
            VecL r(1);
            r << w1 * d;
            return r;
        }
        case PLP: {
            V3L n = V(0).v.head(3);
            V3L n0 = pl.head(3);
            n0 /= n0.norm();
            VecL r(4);
            V3L e = n - n0;
            r << w1 * (e - n * n.dot(e)), w2 * (V(0).v[3] - pl[3]);
            return r;
        }
        case CT: return w1 * (V(3).v - (V(2).v[0] * (V(0).R * V(4).v) - V(1).v));
        default: break;
        }
        throw std::logic_error("residual");
    }
    // make the measurement (constructor data only; measurement variables are chosen by the generator)
    void FacSpec::fit(const std::vector<RVar>& all)
    {
        auto V = [&](int i) -> const RVar& { return all[v[i]]; };
        switch (k) {
        case GP: p = V(0).v.cast<double>(); break;
        case PPP: p = V(0).v.cast<double>(); break;
        case POP:
        case RP: p = refLog(V(0).R).cast<double>(); break;
        case BO:
        case IRB:
        case BP2: {
            V3L d = V(0).R * (V(1).pos() - V(0).v);
            p = (d / d.norm()).cast<double>();
            break;
        }
        case B2:
        case RB2: {
            Eigen::Matrix<L, 2, 1> d = rot2(V(0).v[2]).transpose() * (V(1).v.head(2) - V(0).v.head(2));
            double b = (double)std::atan2(d[1], d[0]);
            p = VectorXd(k == B2 ? 1 : 2);
            if (k == B2) p << b;
            else p << (double)d.norm(), b;
            break;
        }
        case P2P: p = V(0).v.cast<double>(); break;
        case PLP: p = V(0).v.cast<double>(); break;
        default: break; // measurement is a variable, or none
        }
    }

    // ------------------------------------------------------------------ building library objects
    std::shared_ptr<Variable> makeVar(const VarSpec& s)
    {
        std::shared_ptr<Variable> v;
        switch (s.k) {
        case GEN: v = std::make_shared<GenericVariable>(s.id, s.init); break;
        case LM: v = std::make_shared<LandmarkVariable>(s.id, Vector3d(s.init)); break;
        case ROT:
            v = std::make_shared<RotationVariable>(s.id, Eigen::Matrix3d(refExp(V3L(s.init.cast<L>())).cast<double>()));
            break;
        case POSE:
            if (s.ctor == 0) v = std::make_shared<PoseVariable>(s.id, Eigen::Matrix<double, 6, 1>(s.init));
            else
                v = std::make_shared<PoseVariable>(s.id, Vector3d(s.init.head(3)),
                                                   Eigen::Matrix3d(refExp(V3L(s.init.tail(3).cast<L>())).cast<double>()));
            break;
        case P2: v = std::make_shared<Pose2DVariable>(s.id, Vector3d(s.init)); break;
        case PLANE: v = std::make_shared<PlaneVariable>(s.id, Vector3d(s.init.head(3)), s.init[3]); break;
        case IR:
            v = std::make_shared<InverseRangeVariable>(s.id, Vector3d(s.init.head(3)), Vector3d(s.init.segment(3, 3)),
                                                       s.init[6]);
            break;
        }
        v->set_constant(s.c);
        return v;
    }
    std::shared_ptr<Factor> makeFac(const FacSpec& f, const std::vector<std::shared_ptr<Variable>>& vars)
    {
        auto V = [&](int i) { return vars[f.v[i]].get(); };
        auto pose = [&](int i) { return dynamic_cast<PoseVariable *>(V(i)); };
        auto lm = [&](int i) { return dynamic_cast<LandmarkVariable *>(V(i)); };
        auto rot = [&](int i) { return dynamic_cast<RotationVariable *>(V(i)); };
        auto p2 = [&](int i) { return dynamic_cast<Pose2DVariable *>(V(i)); };
        auto gen = [&](int i) { return dynamic_cast<GenericVariable *>(V(i)); };
        auto plane = [&](int i) { return dynamic_cast<PlaneVariable *>(V(i)); };
        auto R = [&]() { return Eigen::Matrix3d(refExp(V3L(f.p.cast<L>())).cast<double>()); };
        switch (f.k) {
        case GP: return std::make_shared<GenericPriorFactor>(f.id, V(0), f.p, f.s1);
        case GB: return std::make_shared<GenericBetweenFactor>(f.id, V(0), V(1), V(2), f.s1);
        case LV: return std::make_shared<LinearVelocityFactor>(f.id, V(0), V(1), V(2), f.a, f.s1, f.i0);
        case PPP: return std::make_shared<PosePositionPriorFactor>(f.id, pose(0), Vector3d(f.p), f.s1);
        case POP: return std::make_shared<PoseOrientationPriorFactor>(f.id, pose(0), R(), f.s1);
        case RP: return std::make_shared<RotationPriorFactor>(f.id, rot(0), R(), f.s1);
        case PPB: return std::make_shared<PosePositionBetweenFactor>(f.id, pose(0), pose(1), V(2), f.s1, f.local);
        case POB: return std::make_shared<PoseOrientationBetweenFactor>(f.id, pose(0), pose(1), rot(2), f.s1);
        case BO: return std::make_shared<BearingObservationFactor>(f.id, pose(0), lm(1), Vector3d(f.p), f.s1);
        case IRB:
            return std::make_shared<InverseRangeBearingFactor>(
                f.id, pose(0), dynamic_cast<InverseRangeVariable *>(V(1)), Vector3d(f.p), f.s1);
        case BP2:
            if (f.a > 0) return std::make_shared<BearingProjectionFactor2D>(f.id, pose(0), lm(1), Vector3d(f.p), f.s1, f.a);
            return std::make_shared<BearingProjectionFactor2D>(f.id, pose(0), lm(1), Vector3d(f.p), f.s1);
        case B2: return std::make_shared<BearingObservationFactor2D>(f.id, p2(0), V(1), f.p[0], f.s1);
        case RB2: return std::make_shared<RangeBearingFactor2D>(f.id, p2(0), V(1), f.p[0], f.p[1], f.s1, f.s2);
        case P2P: return std::make_shared<Pose2DPriorFactor>(f.id, p2(0), Vector3d(f.p), f.s1, f.s2);
        case P2B: return std::make_shared<Pose2DBetweenFactor>(f.id, p2(0), p2(1), V(2), f.s1, f.s2, f.local);
        case PL:
            if (f.p.size() == 0) return std::make_shared<PlaneFactor>(f.id, V(0), plane(1), f.s1);
            return std::make_shared<PlaneFactor>(f.id, V(0), plane(1), f.s1, f.scaled, f.a, Vector3d(f.p));
        case PLP: return std::make_shared<PlanePriorFactor>(f.id, plane(0), Vector3d(f.p.head(3)), f.p[3], f.s1, f.s2);
        case CT:
            return std::make_shared<CoordinateTransformFactor>(f.id, rot(0), gen(1), gen(2), lm(3), lm(4), f.s1);
        default: break;
        }
        throw std::logic_error("makeFac");
    }
    Scene build(const Spec& s, bool finalize)
    {
        Scene sc;
        sc.spec = s;
        sc.g = std::make_shared<FactorGraph>();
        for (auto& v : s.vars) {
            sc.vars.push_back(makeVar(v));
            if (v.in_graph) sc.g->add_variable(sc.vars.back());
        }
        for (auto& f : s.facs) {
            sc.facs.push_back(makeFac(f, sc.vars));
            sc.g->add_factor(sc.facs.back());
        }
        if (finalize) sc.g->finalize_structure();
        return sc;
    }
    void regraph(Scene& sc, Rng& r)
    {
        auto g = std::make_shared<FactorGraph>();
        std::vector<size_t> vo, fo;
        for (size_t i = 0; i < sc.vars.size(); i++)
            if (sc.spec.vars[i].in_graph) vo.push_back(i);
        for (size_t i = 0; i < sc.facs.size(); i++)
            fo.push_back(i);
        r.shuffle(vo);
        r.shuffle(fo);
        for (size_t i : vo)
            g->add_variable(sc.vars[i]);
        for (size_t i : fo)
            g->add_factor(sc.facs[i]);
        g->finalize_structure();
        sc.g = g;
    }
    std::vector<RVar> Scene::states() const
    {
        std::vector<RVar> o;
        for (auto& v : vars)
            o.push_back(RVar::of(*v));
        return o;
    }
    VectorXd varBits(const Variable& v)
    {
        std::vector<double> o;
        auto add = [&](const MatrixXd& m) {
            for (int j = 0; j < m.cols(); j++)
                for (int i = 0; i < m.rows(); i++)
                    o.push_back(m(i, j));
        };
        add(v.value());
        o.push_back(v.is_constant());
        o.push_back(v.id());
        o.push_back(v.size());
        o.push_back((int)v.type());
        if (auto *p = dynamic_cast<const PoseVariable *>(&v)) {
            add(p->pos_W());
            add(p->rot_CW());
            add(p->dcm_CW());
        } else if (auto *p = dynamic_cast<const RotationVariable *>(&v)) {
            add(p->rotation());
        } else if (auto *p = dynamic_cast<const LandmarkVariable *>(&v)) {
            add(p->pos_W());
        } else if (auto *p = dynamic_cast<const Pose2DVariable *>(&v)) {
            add(p->pos_2d());
            o.push_back(p->theta());
            add(p->dcm_2d());
        } else if (auto *p = dynamic_cast<const PlaneVariable *>(&v)) {
            add(p->unit_vector());
            o.push_back(p->distance_from_origin());
        } else if (auto *p = dynamic_cast<const InverseRangeVariable *>(&v)) {
            add(p->origin_pos_W());
            add(p->bearing_W());
            o.push_back(p->inverse_range());
            add(p->pos_W());
            o.push_back(p->minimum_inverse_range_);
            o.push_back(p->maximum_inverse_range_);
        }
        return Eigen::Map<VectorXd>(o.data(), (long)o.size());
    }
    VectorXd Scene::bits() const
    {
        std::vector<double> o;
        for (auto& v : vars) {
            VectorXd b = varBits(*v);
            o.insert(o.end(), b.data(), b.data() + b.size());
        }
        VectorXd r((long)o.size());
        for (size_t i = 0; i < o.size(); i++)
            r[(long)i] = o[i];
        return r;
    }
    bool sameBits(const VectorXd& a, const VectorXd& b)
    {
        if (a.size() != b.size()) return false;
        for (int i = 0; i < a.size(); i++) {
            double x = a[i], y = b[i];
            if (!(x == y || (std::isnan(x) && std::isnan(y)))) return false;
        }
        return true;
    }
    bool sameBits(const MatrixXd& a, const MatrixXd& b)
    {
        if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
        for (int j = 0; j < a.cols(); j++)
            for (int i = 0; i < a.rows(); i++) {
                double x = a(i, j), y = b(i, j);
                if (!(x == y || (std::isnan(x) && std::isnan(y)))) return false;
            }
        return true;
    }
    double maxAbs(const MatrixXd& m)
    {
        double r = 0;
        for (int j = 0; j < m.cols(); j++)
            for (int i = 0; i < m.rows(); i++) {
                double x = std::fabs(m(i, j));
                if (std::isnan(x)) return INFINITY;
                r = std::max(r, x);
            }
        return r;
    }
    bool finite(const Scene& s)
    {
        for (auto& v : s.vars)
            if (!v->value().allFinite()) return false;
        return true;
    }

    // ------------------------------------------------------------------ full problem
    Layout layout(const Spec& s, const std::vector<RVar>& st)
    {
        Layout l;
        for (size_t i = 0; i < s.vars.size(); i++) {
            if (s.vars[i].c || !s.vars[i].in_graph) l.col.push_back(-1);
            else {
                l.col.push_back(l.n);
                l.n += st[i].dof();
            }
        }
        for (auto& f : s.facs) {
            l.row.push_back(l.m);
            l.m += f.rdim(st);
        }
        return l;
    }
    VecL refResidual(const Spec& s, const std::vector<RVar>& st)
    {
        Layout l = layout(s, st);
        VecL r(l.m);
        for (size_t i = 0; i < s.facs.size(); i++)
            r.segment(l.row[i], s.facs[i].rdim(st)) = s.facs[i].residual(st);
        return r;
    }
    bool followsLegacyLocal(const FacSpec& f0)
    {
        if (f0.k != P2B || !f0.local) return false;
        FacSpec f = f0;
        f.v = {0, 1, 2};
        std::vector<std::shared_ptr<Variable>> v = {std::make_shared<Pose2DVariable>(1, Vector3d(0, 0, 0.7)), std::make_shared<Pose2DVariable>(2, Vector3d(1, 2, 0.3)),
                                                    std::make_shared<GenericVariable>(3, Vector3d(0.5, -0.5, 0))};
        std::vector<RVar> st;
        for (auto& x : v)
            st.push_back(RVar::of(*x));
        VecL a = makeFac(f, v)->compute_residual().cast<L>();
        f.legacy_local = false;
        VecL doc = f.residual(st);
        f.legacy_local = true;
        return (a - f.residual(st)).norm() < (a - doc).norm();
    }

    MatL refFacJac(const Spec& s, int fi, const std::vector<RVar>& st0, int j, L step)
    {
        std::vector<RVar> st = st0;
        const FacSpec& f = s.facs[fi];
        int vi = f.v[j];
        RVar x0 = st[vi];
        int n = x0.dof(), m = f.rdim(st);
        MatL J(m, n);
        // angular rows are differentiated without their 2*pi jumps only where the caller keeps away from them
        auto at = [&](int c, L h) {
            VecL d = VecL::Zero(n);
            d[c] = h;
            RVar x = x0;
            if (x.k == IR) {
                x.lo = -1e30L;
                x.hi = 1e30L;
            }
            x.plus(d);
            st[vi] = x;
            VecL r = f.residual(st);
            st[vi] = x0;
            return r;
        };
        for (int c = 0; c < n; c++) {
            L h = step;
            if (x0.k == IR && f.k == IRB) h = std::min(h, x0.v[0] * 1e-3L); // (elsewhere it enters linearly)
            // 6th order central differences
            VecL d1 = (at(c, h) - at(c, -h)) / (2 * h), d2 = (at(c, 2 * h) - at(c, -2 * h)) / (4 * h),
                 d3 = (at(c, 3 * h) - at(c, -3 * h)) / (6 * h);
            J.col(c) = 1.5L * d1 - 0.6L * d2 + 0.1L * d3;
        }
        return J;
    }
    MatL refJacobian(const Spec& s, const std::vector<RVar>& st)
    {
        Layout l = layout(s, st);
        MatL J = MatL::Zero(l.m, l.n);
        for (size_t i = 0; i < s.facs.size(); i++)
            for (size_t j = 0; j < s.facs[i].v.size(); j++) {
                int c = l.col[s.facs[i].v[j]];
                if (c < 0) continue;
                MatL b = refFacJac(s, (int)i, st, (int)j);
                J.block(l.row[i], c, b.rows(), b.cols()) += b;
            }
        return J;
    }
    void refPlus(const Spec& s, std::vector<RVar>& st, const VecL& dx)
    {
        Layout l = layout(s, st);
        for (size_t i = 0; i < st.size(); i++)
            if (l.col[i] >= 0) st[i].plus(dx.segment(l.col[i], st[i].dof()));
    }
    L refCondition(const Spec& s, const std::vector<RVar>& st, int *rank)
    {
        MatL J = refJacobian(s, st);
        if (J.cols() == 0) {
            if (rank) *rank = 0;
            return 1;
        }
        MatL H = J.transpose() * J;
        Eigen::SelfAdjointEigenSolver<MatrixXd> es(H.cast<double>());
        VectorXd e = es.eigenvalues();
        double hi = e.maxCoeff();
        if (rank) {
            *rank = 0;
            for (int i = 0; i < e.size(); i++)
                if (e[i] > 1e-11 * hi) (*rank)++;
        }
        return e.minCoeff() <= 0 ? 1e30L : (L)(hi / e.minCoeff());
    }
    RefSolve refSolve(const Spec& s, std::vector<RVar>& st, int maxit)
    {
        RefSolve o;
        L lam = 1e-6L;
        VecL r = refResidual(s, st);
        o.cost = r.squaredNorm();
        MatL J, H;
        bool fresh = true;
        for (o.iters = 0; o.iters < maxit; o.iters++) {
            if (fresh) {
                J = refJacobian(s, st);
                H = J.transpose() * J;
                fresh = false;
            }
            VecL g = J.transpose() * r;
            o.grad = g.size() ? g.norm() : 0;
            if (g.size() == 0 || o.grad < 1e-16L * (1 + o.cost)) {
                o.ok = true;
                break;
            }
            MatL A = H;
            A.diagonal().array() += lam * (1e-9L + H.diagonal().array());
            VecL dx = A.ldlt().solve(-g);
            auto st2 = st;
            refPlus(s, st2, dx);
            VecL r2 = refResidual(s, st2);
            L c2 = r2.squaredNorm();
            if (c2 <= o.cost && dx.allFinite()) {
                bool tiny = dx.norm() < 1e-13L;
                st = st2;
                r = r2;
                o.cost = c2;
                lam = std::max(lam * 0.1L, 1e-12L);
                fresh = true;
                if (tiny) {
                    o.ok = true;
                    break;
                }
            } else {
                if (dx.norm() < 1e-11L) {
                    o.ok = true;
                    break;
                }
                lam *= 10;
                if (lam > 1e8L) break;
            }
        }
        if (H.cols() > 0) {
            Eigen::SelfAdjointEigenSolver<MatrixXd> es(H.cast<double>());
            double mn = es.eigenvalues().minCoeff();
            o.cond = mn <= 0 ? 1e30L : (L)(es.eigenvalues().maxCoeff() / mn);
        } else
            o.cond = 1;
        return o;
    }

    // ------------------------------------------------------------------ description
    std::string Spec::describe() const
    {
        std::ostringstream o;
        o.precision(17);
        for (auto& v : vars)
            o << vkName(v.k) << "#" << v.id << (v.c ? "c" : "") << (v.in_graph ? "" : "x") << mstr(v.init.transpose()) << " ";
        o << "| ";
        for (auto& f : facs) {
            o << fkName(f.k) << "#" << f.id << "(";
            for (size_t i = 0; i < f.v.size(); i++)
                o << (i ? "," : "") << vars[f.v[i]].id;
            o << ")s=" << f.s1 << "," << f.s2 << (f.local ? " local" : "") << (f.scaled ? " scaled" : "");
            if (f.a != 0) o << " a=" << f.a;
            if (f.p.size()) o << " m=" << mstr(f.p.transpose());
            o << "; ";
        }
        std::string r = o.str();
        if (r.size() > 1500) r = r.substr(0, 1500) + "...";
        return r;
    }
    uint64_t Spec::hash() const
    {
        Hash h;
        for (auto& v : vars) {
            h.u(v.k);
            h.u((uint64_t)v.id);
            h.u(v.c);
            h.m(v.init);
        }
        for (auto& f : facs) {
            h.u(f.k);
            h.u((uint64_t)f.id);
            for (int i : f.v)
                h.u((uint64_t)i);
            h.m(f.p);
            h.d(f.s1);
            h.d(f.s2);
        }
        return h.h;
    }
} // namespace vp
