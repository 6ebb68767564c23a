// P04: SO(3) exponential, logarithm and inverse Jacobian are mutually consistent.
#include "model.hpp"
#include "factorama/random_utils.hpp"

namespace factorama
{
    // defined in random_utils.cpp, not declared in its header
    Eigen::Vector3d LogMapS2(const Eigen::Vector3d& base_unit_vector, Eigen::Vector3d& unit_vector) __attribute__((weak));
} // namespace factorama

namespace vp
{
    const char *kProperty = "P04";
    long n_cases(bool t) { return t ? 6000000 : 600000; }

    // inverse left Jacobian of SO(3) in long double
    static M3L invLeft(const V3L& w)
    {
        L t = w.norm();
        M3L W = refSkew(w);
        L k = t < 1e-4L ? 1.0L / 12 + t * t / 720 : (1 / (t * t) - (1 + std::cos(t)) / (2 * t * std::sin(t)));
        return M3L::Identity() - 0.5L * W + k * W * W;
    }
    static Vector3d angleVec(Rng& r)
    {
        const double pi = 3.14159265358979323846;
        static const std::vector<double> edges = {1e-12, 1e-10, 1e-8, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2};
        double t;
        switch (r.range(0, 6)) {
        case 0: t = r.logu(1e-16, 1e-3); break;
        case 1: t = r.pick(edges) * r.uni(0.5, 2); break;       // around branch thresholds
        case 2: t = r.pick(edges) * (1 + 1e-6 * r.n()); break;
        case 3: t = pi - r.pick(edges) * r.uni(0.5, 2); break;
        case 4: t = pi - r.logu(1e-16, 1e-1); break;
        case 5: t = r.p(0.2) ? pi : r.p(0.2) ? 0 : pi / 2; break;
        default: t = r.uni(0, pi);
        }
        Vector3d a = genUnit(r);
        if (r.p(0.1)) { // nearly axis aligned
            a += 1e-8 * Vector3d(r.n(), r.n(), r.n());
            a.normalize();
        }
        return a * t;
    }

    void run_case(Ctx& c)
    {
        Rng& r = c.rng;
        Vector3d w = angleVec(r);
        if (r.p(0.05)) w *= r.uni(1, 20);
        const L t = w.cast<L>().norm();
        c.eval();
        // skew / unskew
        Eigen::Matrix3d S = skew_symmetric(w);
        Vector3d q(r.n(), r.n(), r.n());
        c.check(S == -S.transpose() && S.diagonal() == Vector3d::Zero(), "skew:antisymmetric", mstr(S));
        c.check((S * q - w.cross(q)).norm() <= 1e-15 * (w.norm() * q.norm()) * 8, "skew:cross", str("v ", mstr(w.transpose())));
        c.check(unskew(S) == w, "unskew:inverse", str(mstr(w.transpose()), " -> ", mstr(unskew(S).transpose())));
        {
            Eigen::Matrix3d A;
            for (int i = 0; i < 9; i++)
                A(i / 3, i % 3) = r.n();
            A = (A - A.transpose()).eval();
            c.check(skew_symmetric(unskew(A)) == A, "skew:inverse", mstr(A));
        }
        // exponential
        Eigen::Matrix3d R = ExpMapSO3(w);
        M3L Q = refExp(V3L(w.cast<L>()));
        double oe = (R * R.transpose() - Eigen::Matrix3d::Identity()).cwiseAbs().maxCoeff();
        c.check(oe < 1e-13 && R.determinant() > 0.5, "exp:rotation", str("R R^T - I = ", oe, " for ", mstr(w.transpose())));
        L ee = (R.cast<L>() - Q).cwiseAbs().maxCoeff();
        c.check(ee <= 1e-14L * (1 + t), "exp:value", str("error ", (double)ee, " for ", mstr(w.transpose()), " angle ", (double)t));
        // logarithm of an accurate rotation matrix
        Vector3d u = angleVec(r);
        M3L P = refExp(V3L(u.cast<L>()));
        if (r.p(0.3)) { // a product, so that the angle is not special by construction
            P = refExp(V3L(angleVec(r).cast<L>())) * P;
            P = refOrtho(P);
        }
        if (r.p(0.05)) { // exact permutation-like rotations
            P.setZero();
            int m = r.range(0, 3);
            P(0, 0) = m == 0 || m == 1 ? 1 : -1;
            P(1, 1) = m == 0 || m == 2 ? 1 : -1;
            P(2, 2) = P(0, 0) * P(1, 1);
        }
        Eigen::Matrix3d Rp = P.cast<double>();
        V3L truth = refLog(refOrtho(Rp.cast<L>()));
        L a = truth.norm(), d = std::max(1e-12L, PIL - a);
        Vector3d lg = LogMapSO3(Rp);
        c.count(a < 1e-5L ? "log-near-0" : d < 1e-3L ? "log-near-pi" : "log-mid");
        L tol = 1e-13L + std::min(5e-9L, 4e-15L / (d * d));
        c.check(lg.allFinite() && (L)lg.norm() <= PIL + 1e-14L, "log:norm", str("norm ", lg.norm(), " of ", mstr(Rp)));
        bool near = (lg.cast<L>() - truth).norm() <= tol || (d < 1e-7L && (lg.cast<L>() + truth).norm() <= 2e-7L);
        c.check(near, "log:value", str("got ", mstr(lg.transpose()), " expected ", mstr(truth.transpose()), " error ",
                                       (double)(lg.cast<L>() - truth).norm(), " angle ", (double)a));
        L be = (refExp(V3L(lg.cast<L>())) - Rp.cast<L>()).cwiseAbs().maxCoeff();
        c.check(be <= tol + 1e-14L, "log:exp-back", str("exp(log(R)) - R = ", (double)be, " angle ", (double)a, " R ", mstr(Rp)));
        Eigen::Matrix3d back = ExpMapSO3(lg);
        c.check((back - Rp).cwiseAbs().maxCoeff() <= (double)tol + 2e-14, "log:exp-back-library", str("angle ", (double)a));
        // inverse Jacobian: log(exp(delta) exp(w)) = w + J delta
        Vector3d x = angleVec(r);
        if (r.p(0.3)) x *= 1.9;
        L tx = x.cast<L>().norm();
        if (tx < 2 * PIL - 0.1L) {
            Eigen::Matrix3d J = compute_inverse_right_jacobian_so3(x);
            M3L K = invLeft(V3L(x.cast<L>()));
            if (tx > PIL - 1e-3L && tx < PIL + 1e-3L) { // removable singularity of the reference formula
                V3L ax = x.cast<L>() / tx;
                L h = tx / 2, ct = h * std::cos(h) / std::sin(h);
                K = ct * M3L::Identity() + (1 - ct) * (ax * ax.transpose()) - h * refSkew(ax);
            }
            L je = (J.cast<L>() - K).cwiseAbs().maxCoeff();
            c.check(je <= 1e-10L, "inverse-jacobian:value", str("error ", (double)je, " at ", mstr(x.transpose()), " angle ", (double)tx));
            c.count("inverse-jacobian");
            if (tx < PIL - 0.2L && c.idx % 4 == 0) { // independent of any formula: by differences of the reference logarithm
                V3L dl(r.n(), r.n(), r.n());
                L h = 1e-5L;
                auto at = [&](L e) { return refLog(refExp(V3L(e * dl)) * refExp(V3L(x.cast<L>()))); };
                V3L nd = (8.0L * (at(h) - at(-h)) - (at(2 * h) - at(-2 * h))) / (12 * h);
                L e2 = (J.cast<L>() * dl - nd).norm();
                c.check(e2 <= 1e-9L * (1 + dl.norm()), "inverse-jacobian:perturbation", str("error ", (double)e2, " at ", mstr(x.transpose())));
            }
        }
        // direction logarithm
        if (&factorama::LogMapS2) {
            Vector3d b = genUnit(r), e = genUnit(r);
            if (r.p(0.4)) {
                e = b + r.logu(3e-10, 1e-1) * genUnit(r);
                e.normalize();
                if (r.p(0.3)) e = -e;
            }
            Vector3d v = LogMapS2(b, e);
            L sn = b.cast<L>().cross(e.cast<L>()).norm(), cs = b.cast<L>().dot(e.cast<L>());
            if (sn > 3e-10L) {
                L ang = std::atan2(sn, cs);
                V3L ref = b.cast<L>().cross(e.cast<L>()) / sn * ang;
                L er = (v.cast<L>() - ref).norm();
                c.check(er <= 1e-12L + 3e-15L / sn, "log-s2:value", str("error ", (double)er, " sin ", (double)sn));
                c.check((refExp(V3L(v.cast<L>())) * b.cast<L>() - e.cast<L>()).norm() <= 1e-12L + 4e-15L / sn, "log-s2:turns", str("sin ", (double)sn));
                c.count("log-s2");
                if (sn < 1e-6L) c.count(cs > 0 ? "log-s2.nearly-equal" : "log-s2.nearly-opposite");
            } else if (cs > 0)
                c.check(v.norm() <= 1e-7, "log-s2:small", str("norm ", v.norm()));
        }
        Hash h;
        h.m(w);
        h.m(u);
        h.m(x);
        if (c.cov.size() < 20000) c.cover(h.h);
        if (c.want_sample()) c.sample(str("w ", mstr(w.transpose()), " log input angle ", (double)a, " log ", mstr(lg.transpose())));
    }
} // namespace vp
