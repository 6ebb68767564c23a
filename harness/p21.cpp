// P21: the Huber kernel is the identity up to its threshold, sqrt(threshold * norm) beyond, and its Jacobian
// transformation is the derivative of the residual transformation.
#include "model.hpp"
#include "factorama/kernels.hpp"

namespace vp
{
    using namespace factorama;
    using Eigen::MatrixXd;
    using Eigen::VectorXd;
    using VL = Eigen::Matrix<long double, Eigen::Dynamic, 1>;
    using ML = Eigen::Matrix<long double, Eigen::Dynamic, Eigen::Dynamic>;
    const char *kProperty = "P21";
    long n_cases(bool t) { return t ? 3000000 : 360000; }

    static long double lnorm(const VL& v)
    {
        long double s = 0;
        for (int i = 0; i < v.size(); i++)
            s += v[i] * v[i];
        return sqrtl(s);
    }
    static VL huber(const VL& r, long double delta)
    {
        long double n = lnorm(r);
        return n <= delta ? r : VL(r * sqrtl(delta / n));
    }

    void run_case(Ctx& c)
    {
        Rng& r = c.rng;
        double delta = r.p(0.2) ? 1.0 : r.p(0.5) ? r.logu(0.05, 20) : r.logu(1e-8, 1e8);
        auto k = std::make_shared<HuberKernel>(delta);
        std::shared_ptr<ResidualKernel> base = k;
        c.check(k->delta() == delta, "delta", str(k->delta(), " instead of ", delta));
        int n = r.p(0.3) ? 1 : r.range(1, 9);
        VectorXd dir(n);
        for (int i = 0; i < n; i++)
            dir[i] = r.p(0.2) ? 0 : r.n();
        if (dir.norm() == 0) dir[0] = r.p(0.5) ? 1 : -1;
        dir.normalize();
        // magnitudes around the threshold, far below, far above
        int reg = r.range(0, 5);
        double f = reg == 0 ? 0 : reg == 1 ? r.logu(1e-12, 1) : reg == 2 ? 1 + r.uni(-1, 1) * r.logu(1e-9, 0.5) : reg == 3 ? r.uni(1, 10)
                 : reg == 4 ? r.logu(1, 1e12) : r.logu(1.0, 1.5);
        VectorXd res = dir * (f * delta);
        VL rl = res.cast<long double>();
        long double nn = lnorm(rl);
        bool edge = fabsl(nn / delta - 1) < 1e-13L;
        bool outer = nn > delta;
        const VectorXd keep = res;
        VectorXd got = r.p(0.5) ? k->apply_to_residual(res) : base->apply_to_residual(res);
        c.eval();
        c.count(edge ? "at-threshold" : outer ? "beyond" : nn == 0 ? "zero" : "within");
        c.check(res == keep, "input-changed", "residual argument was modified");
        std::string d = str("delta=", delta, " residual=", mstr(res), " -> ", mstr(got));
        if (!c.check(got.size() == n, "size", d)) return;
        VL want = huber(rl, delta);
        if (!outer && !edge)
            c.check(got == res, "identity", d);
        else
            c.check(lnorm(got.cast<long double>() - want) <= 1e-13L * lnorm(want), "outlier-residual", d + " expected " + mstr(want));
        // grows monotonically along a ray, and is continuous
        for (int t = 0; t < 2; t++) {
            double g = t == 0 ? 1 + r.logu(1e-12, 1e-3) : r.logu(1, 100);
            VectorXd got2 = base->apply_to_residual(res * g);
            c.eval();
            long double a = lnorm(got.cast<long double>()), b = lnorm(got2.cast<long double>());
            c.check(b >= a * (1 - 1e-13L), "monotone", d + str(" but longer by ", g, " -> ", mstr(got2)));
            c.check(b <= a * g * (1 + 1e-13L), "continuous", d + str(" but longer by ", g, " -> ", mstr(got2)));
        }
        // Jacobians: any number and shape of blocks
        std::vector<MatrixXd> J;
        for (int q = r.range(0, 4); q > 0; q--) {
            int kind = r.range(0, 5);
            if (kind == 0)
                J.emplace_back();
            else if (kind == 1)
                J.emplace_back(n, 0);
            else {
                MatrixXd m(n, r.range(1, 7));
                double s = r.logu(1e-6, 1e6);
                for (int a = 0; a < m.size(); a++)
                    m.data()[a] = r.p(0.2) ? 0 : r.n() * s;
                if (kind == 2) m.col(0) = res; // along the residual: the derivative of the norm is largest
                J.push_back(m);
            }
        }
        auto J0 = J;
        if (r.p(0.5)) k->apply_to_jacobians(res, J);
        else base->apply_to_jacobians(res, J);
        c.eval();
        c.check(res == keep, "input-changed", "residual argument was modified by apply_to_jacobians");
        if (!c.check(J.size() == J0.size(), "block-count", d)) return;
        Hash h;
        h.m(res);
        h.d(delta);
        for (size_t i = 0; i < J.size(); i++) {
            h.m(J[i]);
            std::string e = d + str(" block ", i, " ", mstr(J0[i]), " -> ", mstr(J[i]));
            if (!c.check(J[i].rows() == J0[i].rows() && J[i].cols() == J0[i].cols(), "block-shape", e)) continue;
            if (J0[i].size() == 0) {
                c.count("empty-block");
                continue;
            }
            if (edge) continue; // not differentiable there
            c.count(outer ? "jacobian-beyond" : "jacobian-within");
            if (!outer) {
                c.check(J[i] == J0[i], "jacobian-identity", e);
                continue;
            }
            // central differences of the residual transformation along each column
            for (int q = 0; q < J[i].cols(); q++) {
                VL v = J0[i].col(q).cast<long double>();
                long double vn = lnorm(v);
                if (vn == 0) {
                    c.check(J[i].col(q).norm() == 0, "jacobian-zero-column", e);
                    continue;
                }
                VL u = v / vn;
                long double step = nn * 1e-4L;
                if (nn - 3 * step <= delta) step = (nn - delta) / 6; // stay on one side
                auto D = [&](long double s) { return VL((huber(VL(rl + u * s), delta) - huber(VL(rl - u * s), delta)) / (2 * s)); };
                VL num = (D(step) * 15 - D(2 * step) * 6 + D(3 * step)) / 10 * vn;
                long double err = lnorm(J[i].col(q).cast<long double>() - num);
                long double tol = 1e-11L + 1e-15L / (step / nn) * 0.1L;
                if (tol > 1e-5L) continue; // too close to the threshold to differentiate
                c.eval();
                c.count("columns-compared");
                c.check(err <= tol * sqrtl(delta / nn) * vn, "jacobian-derivative", e + str(" column ", q, " expected ", mstr(num), " error ", (double)(err / vn)));
            }
        }
        c.cover(h.h);
        if (c.want_sample()) c.sample(d);
    }
} // namespace vp
