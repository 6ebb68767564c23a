// Random operations on a single variable, applicable to any number of equal objects.
#pragma once
#include "model.hpp"
#include "factorama/generic_variable.hpp"
#include "factorama/inverse_range_variable.hpp"
#include "factorama/landmark_variable.hpp"
#include "factorama/plane_variable.hpp"
#include "factorama/pose_2d_variable.hpp"
#include "factorama/pose_variable.hpp"
#include "factorama/rotation_variable.hpp"

namespace vp
{
    struct VarOp {
        enum T { SET, INC, SELF, POS, ROTM, POSEVEC, THETA, CONST, LIMITS, BADSET, BADINC, NT } t;
        VectorXd x;
        Eigen::Matrix3d R;
        bool flag = false;
        std::string describe() const
        {
            static const char *n[] = {"set_value", "increment", "assign-back", "set_pos", "set_dcm", "set_pose_vector",
                                      "set_theta", "set_constant", "limits", "wrong-size-set", "wrong-size-increment"};
            return str(n[t], mstr(x.transpose()));
        }
    };
    inline VectorXd randVec(Rng& r, int n, double s)
    {
        VectorXd v(n);
        for (int i = 0; i < n; i++)
            v[i] = s * r.n();
        return v;
    }
    inline VarOp genOp(Rng& r, VK k, int dim)
    {
        VarOp o;
        o.R.setIdentity();
        auto rotv = [&]() {
            Vector3d w = genRotvec(r);
            if (r.p(0.1)) w *= r.uni(1, 4); // beyond pi
            return w;
        };
        for (;;) {
            o.t = (VarOp::T)r.range(0, VarOp::NT - 1);
            switch (o.t) {
            case VarOp::SET:
                o.x = randVec(r, dim, r.logu(1e-3, 1e3));
                if (k == ROT) o.x = rotv();
                if (k == POSE) o.x.tail(3) = rotv();
                if (k == PLANE) {
                    Vector3d n = genUnit(r) * r.logu(1e-3, 1e3);
                    o.x.head(3) = n;
                }
                if (k == P2) o.x[2] = r.p(0.3) ? r.range(-3, 3) * 3.14159265358979323846 + r.n() * 1e-9 : r.uni(-20, 20);
                if (k == IR) o.x[0] = r.p(0.3) ? r.n() * 2000 : r.p(0.2) ? 0.0 : r.logu(1e-8, 1e5);
                return o;
            case VarOp::INC:
                o.x = randVec(r, dim, r.p(0.5) ? r.logu(1e-12, 1e-2) : r.logu(1e-2, 10));
                if (k == ROT) o.x = rotv();
                if (k == POSE) o.x.tail(3) = rotv();
                if (k == PLANE && o.x.head(3).norm() > 0.9) o.x.head(3) *= 0.9 / o.x.head(3).norm();
                if (k == P2) o.x[2] = r.p(0.2) ? r.range(-3, 3) * 3.14159265358979323846 : r.uni(-7, 7);
                if (r.p(0.05)) o.x.setZero();
                return o;
            case VarOp::SELF: return o;
            case VarOp::POS:
                if (k != POSE && k != LM && k != P2) continue;
                o.x = randVec(r, k == P2 ? 2 : 3, r.logu(1e-3, 1e3));
                return o;
            case VarOp::ROTM: {
                if (k != POSE) continue;
                Vector3d w = genRotvec(r);
                o.x = w;
                o.R = refExp(V3L(w.cast<L>())).cast<double>();
                return o;
            }
            case VarOp::POSEVEC:
                if (k != POSE) continue;
                o.x = randVec(r, 6, r.logu(1e-3, 1e3));
                o.x.tail(3) = rotv();
                return o;
            case VarOp::THETA:
                if (k != P2) continue;
                o.x = VectorXd::Constant(1, r.p(0.3) ? r.range(-3, 3) * 3.14159265358979323846 + r.n() * 1e-9 : r.uni(-20, 20));
                return o;
            case VarOp::CONST:
                o.flag = r.p(0.5);
                o.x = VectorXd::Constant(1, o.flag);
                return o;
            case VarOp::LIMITS:
                if (k != IR || r.p(0.5)) continue;
                o.x = VectorXd(2);
                o.x << r.logu(1e-6, 1e-2), r.logu(1, 1e4);
                return o;
            case VarOp::BADSET:
            case VarOp::BADINC: {
                int n = dim;
                while (n == dim)
                    n = r.range(0, 9);
                o.x = randVec(r, n, 1.0);
                return o;
            }
            default: continue;
            }
        }
    }
    // true if the call was refused with an exception
    inline bool applyOp(const VarOp& o, Variable& v)
    {
        try {
            switch (o.t) {
            case VarOp::SET:
            case VarOp::BADSET: v.set_value_from_vector(o.x); break;
            case VarOp::INC:
            case VarOp::BADINC: v.apply_increment(o.x); break;
            case VarOp::SELF: v.set_value_from_vector(VectorXd(v.value())); break;
            case VarOp::POS:
                if (auto *p = dynamic_cast<PoseVariable *>(&v)) p->set_pos_W(Vector3d(o.x));
                else if (auto *p = dynamic_cast<LandmarkVariable *>(&v)) p->set_pos_W(Vector3d(o.x));
                else dynamic_cast<Pose2DVariable&>(v).set_pos_2d(Eigen::Vector2d(o.x));
                break;
            case VarOp::ROTM: dynamic_cast<PoseVariable&>(v).set_dcm_CW(o.R); break;
            case VarOp::POSEVEC: dynamic_cast<PoseVariable&>(v).set_pose_vector(Eigen::Matrix<double, 6, 1>(o.x)); break;
            case VarOp::THETA: dynamic_cast<Pose2DVariable&>(v).set_theta(o.x[0]); break;
            case VarOp::CONST: v.set_constant(o.flag); break;
            case VarOp::LIMITS: {
                auto& p = dynamic_cast<InverseRangeVariable&>(v);
                p.minimum_inverse_range_ = o.x[0];
                p.maximum_inverse_range_ = o.x[1];
                p.clip_inverse_range();
                break;
            }
            default: break;
            }
        } catch (const std::exception&) {
            return true;
        }
        return false;
    }
} // namespace vp
