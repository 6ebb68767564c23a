// P01: a factor's residual is its documented measurement error over sigma.
#include "factorama/bearing_observation_factor.hpp"
#include "factorama/bearing_observation_factor_2d.hpp"
#include "factorama/bearing_projection_factor_2d.hpp"
#include "factorama/coordinate_transform_factor.hpp"
#include "factorama/generic_between_factor.hpp"
#include "factorama/generic_prior_factor.hpp"
#include "factorama/inverse_range_bearing_factor.hpp"
#include "factorama/linear_velocity_factor.hpp"
#include "factorama/plane_factor.hpp"
#include "factorama/plane_prior_factor.hpp"
#include "factorama/pose_2d_between_factor.hpp"
#include "factorama/pose_2d_prior_factor.hpp"
#include "factorama/pose_between_factors.hpp"
#include "factorama/pose_prior_factors.hpp"
#include "factorama/range_bearing_factor_2d.hpp"
#include "factorama/rotation_prior_factor.hpp"
#include "model.hpp"

namespace vp
{
    const char *kProperty = "P01";
    long n_cases(bool t) { return t ? 1200000 : 150000; }

    static L scaleOf(const FacSpec& f, const std::vector<RVar>& st)
    {
        L s = 1;
        for (int i : f.v) {
            if (st[i].v.size()) s = std::max(s, st[i].v.cwiseAbs().maxCoeff());
            if (st[i].k == IR) s = std::max({s, st[i].org.cwiseAbs().maxCoeff(), 1 / st[i].v[0]});
        }
        if (f.p.size()) s = std::max(s, (L)f.p.cwiseAbs().maxCoeff());
        L extra = 1;
        if (f.k == LV) extra = 1 + std::fabs((L)f.a);
        if (f.k == CT) extra = 1 + std::fabs(st[f.v[2]].v[0]);
        if (f.k == BO || f.k == IRB || f.k == BP2) {
            L d = (st[f.v[1]].pos() - st[f.v[0]].v).norm();
            extra = 1 + 1 / std::max(d, 1e-6L);
        }
        if (f.k == B2 || f.k == RB2) {
            L d = (st[f.v[1]].v.head(2) - st[f.v[0]].v.head(2)).norm();
            extra = 1 + 1 / std::max(d, 1e-6L);
        }
        if (f.k == PL && f.scaled) extra = 1 + 1 / (L)f.a;
        return s * extra;
    }

    // library value vs reference, component-wise, honouring what a double implementation can deliver
    static bool match(const FacSpec& f, const std::vector<RVar>& st, const VectorXd& r, const VecL& q, std::string& why)
    {
        if (r.size() != q.size()) {
            why = str("size ", r.size(), " expected ", q.size());
            return false;
        }
        const L sc = scaleOf(f, st);
        auto near = [&](L a, L b, L tol, const char *what) {
            if (std::fabs(a - b) <= tol) return true;
            why = str(what, ": got ", (double)a, " expected ", (double)b, " tolerance ", (double)tol);
            return false;
        };
        auto angle = [&](int i, L s) {
            L a = (L)r[i] * s, b = q[i] * s, tol = 1e-12L * sc + 1e-12L;
            if (!(std::fabs(a) <= PIL + 1e-9L)) {
                why = str("angular component ", (double)a, " outside [-pi, pi]");
                return false;
            }
            return near(refWrap(a - b), 0, tol, "angle");
        };
        switch (f.k) {
        case POP:
        case RP:
        case POB: {
            V3L a = r.cast<L>() * (L)f.s1, b = q * (L)f.s1;
            L th = b.norm();
            if (!(a.norm() <= PIL + 1e-9L)) {
                why = str("rotation error of norm ", (double)a.norm());
                return false;
            }
            auto logErr = [](L t) { return std::min(5e-9L, 1e-12L + 4e-15L / std::max(1e-12L, (PIL - t) * (PIL - t))); };
            // priors may keep their measurement as a rotation vector
            L tol = logErr(th) + (f.k == POB ? 0 : logErr(f.p.norm()));
            if ((a - b).norm() <= tol) return true;
            if (th > PIL - 1e-4L && (refExp(a) - refExp(b)).norm() <= 1e-8L) return true; // either axis sign at pi
            why = str("rotation logarithm: got ", mstr(a.transpose()), " expected ", mstr(b.transpose()));
            return false;
        }
        case B2: return angle(0, f.s1);
        case RB2: return near(r[0], q[0], 1e-12L * sc / f.s1, "range") && angle(1, f.s2);
        case P2P:
        case P2B:
            return near(r[0], q[0], 1e-12L * sc / f.s1, "x") && near(r[1], q[1], 1e-12L * sc / f.s1, "y") && angle(2, f.s2);
        case PLP:
            for (int i = 0; i < 3; i++)
                if (!near(r[i], q[i], 1e-12L / f.s1, "normal")) return false;
            return near(r[3], q[3], 1e-12L * sc / f.s2, "distance");
        default:
            for (int i = 0; i < r.size(); i++)
                if (!near(r[i], q[i], 1e-12L * sc / f.s1, "component")) return false;
            return true;
        }
    }

    // what a factor tells about itself is what it was given
    static std::string told(const FacSpec& f, const Factor& fac)
    {
        std::string bad;
        auto near = [&](double got, double want, const char *what) {
            if (!(std::fabs(got - want) <= 1e-12 * (1 + std::fabs(want)))) bad += str(what, " is ", got, " expected ", want, "; ");
        };
        auto w = [&](auto *p) {
            if (!p) bad += "wrong class; ";
            else near(p->weight() * f.s1, 1, "weight times sigma");
            return p;
        };
        auto bearing = [&](const Vector3d& b) {
            Vector3d u = (f.p.cast<L>() / f.p.cast<L>().norm()).cast<double>();
            if (!((b - u).norm() <= 1e-12)) bad += str("bearing is ", mstr(b.transpose()), " expected ", mstr(u.transpose()), "; ");
        };
        auto angle = [&](double a, double b) { near((double)refWrap((L)a - (L)b), 0, "bearing angle off by"); };
        auto is = [&](FactorType::FactorTypeEnum t) {
            if (fac.type() != t) bad += str("type() is ", (int)fac.type(), " expected ", (int)t, "; ");
        };
        switch (f.k) {
        case GP: w(dynamic_cast<const GenericPriorFactor *>(&fac)); is(FactorType::generic_prior); break;
        case GB: w(dynamic_cast<const GenericBetweenFactor *>(&fac)); is(FactorType::generic_between); break;
        case LV: w(dynamic_cast<const LinearVelocityFactor *>(&fac)); break;
        case PPP: w(dynamic_cast<const PosePositionPriorFactor *>(&fac)); is(FactorType::pose_position_prior); break;
        case POP: w(dynamic_cast<const PoseOrientationPriorFactor *>(&fac)); is(FactorType::pose_orientation_prior); break;
        case RP: w(dynamic_cast<const RotationPriorFactor *>(&fac)); break;
        case PPB: w(dynamic_cast<const PosePositionBetweenFactor *>(&fac)); is(FactorType::pose_position_between); break;
        case POB: w(dynamic_cast<const PoseOrientationBetweenFactor *>(&fac)); is(FactorType::pose_orientation_between); break;
        case CT: w(dynamic_cast<const CoordinateTransformFactor *>(&fac)); break;
        case BO:
            if (auto *p = w(dynamic_cast<const BearingObservationFactor *>(&fac))) bearing(p->bearing_C_obs());
            is(FactorType::bearing_observation);
            break;
        case IRB:
            if (auto *p = w(dynamic_cast<const InverseRangeBearingFactor *>(&fac))) bearing(p->bearing_C_obs());
            is(FactorType::inverse_range_bearing);
            break;
        case BP2:
            if (auto *p = w(dynamic_cast<const BearingProjectionFactor2D *>(&fac))) bearing(p->bearing_C_obs());
            break;
        case B2:
            if (auto *p = w(dynamic_cast<const BearingObservationFactor2D *>(&fac))) angle(p->bearing_angle_obs(), f.p[0]);
            is(FactorType::bearing_observation_2d);
            break;
        case RB2:
            if (auto *p = dynamic_cast<const RangeBearingFactor2D *>(&fac)) {
                near(p->range_weight() * f.s1, 1, "range weight times sigma");
                near(p->bearing_weight() * f.s2, 1, "bearing weight times sigma");
                near(p->range_obs(), f.p[0], "range");
                angle(p->bearing_angle_obs(), f.p[1]);
            }
            is(FactorType::range_bearing_2d);
            break;
        case P2P:
            if (auto *p = dynamic_cast<const Pose2DPriorFactor *>(&fac)) {
                near(p->position_weight() * f.s1, 1, "position weight times sigma");
                near(p->angle_weight() * f.s2, 1, "angle weight times sigma");
            }
            is(FactorType::pose_2d_prior);
            break;
        case P2B:
            if (auto *p = dynamic_cast<const Pose2DBetweenFactor *>(&fac)) {
                near(p->position_weight() * f.s1, 1, "position weight times sigma");
                near(p->angle_weight() * f.s2, 1, "angle weight times sigma");
            }
            is(FactorType::pose_2d_between);
            break;
        case PL: w(dynamic_cast<const PlaneFactor *>(&fac)); is(FactorType::plane_factor); break;
        case PLP: is(FactorType::plane_prior); break;
        default: break;
        }
        return bad;
    }

    void run_case(Ctx& c)
    {
        Rng& r = c.rng;
        FK k = (FK)(c.idx % NFK);
        Spec s = genFactorSpec(r, k, false);
        Scene sc;
        sc.spec = s;
        for (auto& v : s.vars)
            sc.vars.push_back(makeVar(v));
        FacSpec f = s.facs[0];
        auto fac = makeFac(f, sc.vars);
        const char *fn = fkName(k);
        auto vs = fac->variables();
        bool okv = vs.size() == f.v.size();
        for (size_t i = 0; okv && i < vs.size(); i++)
            okv = vs[i] == sc.vars[f.v[i]].get();
        c.check(okv, str(fn, ":variables"), "variables() is not the list given at construction");
        c.check(fac->id() == f.id, str(fn, ":id"), "factor id differs");
        auto asGiven = [&](const char *when) {
            const std::string bad = told(f, *fac);
            c.check(bad.empty(), str(fn, ":told-", when), bad + s.describe());
            c.count("accessors");
        };
        asGiven("new");
        const int states = 4;
        std::vector<VectorXd> lib;
        std::vector<VecL> ref;
        for (int t = 0; t < states; t++) {
            if (t > 0) { // move the variables: the residual must follow
                for (auto& v : sc.vars) {
                    if (r.p(0.25)) continue;
                    VectorXd d(v->size());
                    double e = r.p(0.5) ? r.logu(1e-8, 1e-1) : r.logu(0.1, 2);
                    for (int i = 0; i < d.size(); i++)
                        d[i] = e * r.n();
                    if (r.p(0.7)) v->apply_increment(d);
                    else v->set_value_from_vector(v->value() + d);
                }
            }
            auto st = sc.states();
            // stay inside the factor's domain
            bool dom = true;
            if (k == BO || k == IRB || k == BP2) {
                L d = (st[f.v[1]].pos() - st[f.v[0]].v).norm();
                dom = d > 1e-3L;
                if (k == BP2) {
                    V3L dd = st[f.v[0]].R * (st[f.v[1]].pos() - st[f.v[0]].v), kk = f.p.cast<L>();
                    dom = dom && kk.dot(dd) / (kk.norm() * dd.norm()) > 2e-3L;
                }
            }
            if (k == B2 || k == RB2) dom = (st[f.v[1]].v.head(2) - st[f.v[0]].v.head(2)).norm() > 1e-3L;
            if (!dom) continue;
            VectorXd before = sc.bits();
            VectorXd a = fac->compute_residual();
            const int n = fac->residual_size();
            // in place, into the middle of a larger vector holding arbitrary numbers
            VectorXd buf = VectorXd::Constant(n + 6, r.p(0.5) ? std::nan("") : 1e30 * r.n());
            buf[0] = buf[1] = buf[2] = 7.25;
            buf.tail(3).setConstant(-3.5);
            fac->compute_residual(buf.segment(3, n));
            c.check(sameBits(before, sc.bits()), str(fn, ":changed-variable"), "evaluating the residual changed a variable");
            VecL q = f.residual(st);
            c.eval();
            c.count(fn);
            VectorXd b = buf.segment(3, n);
            bool same = a.size() == n;
            for (int i = 0; same && i < n; i++)
                same = std::fabs(a[i] - b[i]) <= 1e-12 * (1 + std::fabs(a[i]));
            if (!same && k != BP2) { // two ways to write one formula may round differently
                std::string w;
                FacSpec g = f;
                g.legacy_local = f.k == P2B && f.local && followsLegacyLocal(f);
                same = match(g, st, a, g.residual(st), w) && match(g, st, b, g.residual(st), w);
            }
            c.check(same, str(fn, ":overloads-differ"), str("value ", mstr(a.transpose()), " in place ", mstr(b.transpose())));
            c.check(buf[0] == 7.25 && buf[1] == 7.25 && buf[2] == 7.25 && buf.tail(3) == VectorXd::Constant(3, -3.5),
                    str(fn, ":writes-outside"), "in-place evaluation wrote outside its segment");
            std::string why;
            if (k == BP2) {
                lib.push_back(a);
                ref.push_back(q);
                bool ok = a.size() == 2;
                // the tangent basis is free: all inner products must agree
                for (size_t i = 0; ok && i < lib.size(); i++) {
                    L x = lib[i].cast<L>().dot(a.cast<L>()), y = ref[i].dot(q);
                    L tol = 1e-11L * scaleOf(f, st) * (1 + ref[i].norm()) * (1 + q.norm()) / f.s1 / std::min(1.0, f.s1);
                    ok = std::fabs(x - y) <= tol;
                    if (!ok) why = str("inner product ", (double)x, " expected ", (double)y);
                }
                c.check(ok, str(fn, ":residual"), why + " | " + s.describe());
            } else if (!match(f, st, a, q, why)) {
                std::string key = str(fn, ":residual");
                if (k == P2B && f.local) {
                    FacSpec g = f;
                    g.legacy_local = true;
                    std::string w2;
                    if (match(g, st, a, g.residual(st), w2)) key = "pose2d_between_local_frame_uses_R";
                }
                c.viol(key, why + " | " + s.describe());
            }
            Hash h;
            h.u(s.hash());
            for (auto& x : sc.vars)
                h.m(x->value());
            c.cover(h.h);
            if (c.want_sample() && c.idx > 100)
                c.sample(str(s.describe(), " -> residual ", mstr(a.transpose()), " reference ", mstr(q.transpose())));
            if (q.norm() * std::min(f.s1, f.s2) > 1e-6L) c.count("nonzero");
        }
        asGiven("used");
    }
} // namespace vp
