// P14: linear least-squares problems are solved to the exact minimiser.
#include "userfac.hpp"

namespace vp
{
    const char *kProperty = "P14";
    long n_cases(bool t) { return t ? 60000 : 9000; }

    // a random linear graph: Euclidean variables with priors, differences, velocities and position factors
    static Spec linearSpec(Rng& r, bool big)
    {
        Spec s;
        const int nv = big ? r.range(10, 40) : r.p(0.006) ? r.range(40, 130) : r.range(1, 9);
        std::set<int> ids;
        auto id = [&](std::set<int>& used) {
            for (;;) {
                int x = r.p(0.4) ? r.range(-40, 400) : (int)r.u64();
                if (used.insert(x).second) return x;
            }
        };
        std::set<int> fids;
        const int dimAll = r.range(1, 4);
        double scale = r.logu(0.1, 100);
        double sc_lo = r.logu(0.01, 1), sc_hi = sc_lo * r.logu(1, 100); // weights spread over up to four decades
        for (int i = 0; i < nv; i++) {
            VarSpec v;
            v.id = id(ids);
            int d = r.p(0.8) ? dimAll : r.p(0.05) ? r.range(7, 40) : r.range(1, 6);
            v.k = d == 3 && r.p(0.3) ? LM : GEN;
            v.init = VectorXd(d);
            for (int j = 0; j < d; j++)
                v.init[j] = scale * r.n() * (r.p(0.1) ? 100 : 1);
            v.c = r.p(0.12);
            v.in_graph = !(v.c && r.p(0.5));
            s.vars.push_back(v);
        }
        auto add = [&](FK k, std::vector<int> vs) {
            FacSpec f;
            f.k = k;
            f.id = id(fids);
            f.v = vs;
            f.s1 = r.logu(sc_lo, sc_hi);
            f.s2 = r.logu(sc_lo, sc_hi);
            f.p = VectorXd(s.vars[vs[0]].init.size());
            for (int j = 0; j < f.p.size(); j++)
                f.p[j] = scale * r.n();
            if (k == LV) {
                f.a = r.uni(0.05, 2);
                f.p.resize(0);
            }
            s.facs.push_back(f);
        };
        auto dim = [&](int i) { return (int)s.vars[i].init.size(); };
        for (int i = 0; i < nv; i++)
            if (r.p(0.5)) add(GP, {i});
        for (int k = r.range(0, 3 * nv); k > 0 && nv > 1; k--) {
            int a = r.range(0, nv - 1), b = r.range(0, nv - 1);
            if (a == b || dim(a) != dim(b)) continue;
            int m = r.range(0, nv - 1);
            if (r.p(0.6)) {
                if (m == a || m == b || dim(m) != dim(a) || s.vars[m].k != GEN || s.vars[a].k != GEN || s.vars[b].k != GEN) {
                    // a constant holder for the measured difference
                    VarSpec v;
                    v.k = GEN;
                    v.id = id(ids);
                    v.init = VectorXd(dim(a));
                    for (int j = 0; j < v.init.size(); j++)
                        v.init[j] = scale * r.n();
                    v.c = true;
                    v.in_graph = r.p(0.5);
                    s.vars.push_back(v);
                    m = (int)s.vars.size() - 1;
                }
                add(GB, {a, b, m});
            } else if (m != a && m != b && dim(m) >= 1) {
                if (s.vars[m].k != GEN || s.vars[a].k != GEN || s.vars[b].k != GEN) continue;
                if (dim(m) > dim(a)) continue;
                add(LV, {a, b, m});
                auto& f = s.facs.back();
                f.i0 = r.range(0, dim(a) - dim(m));
            }
        }
        return s;
    }

    void run_case(Ctx& c)
    {
        Rng& r = c.rng;
        Spec s;
        if (r.p(0.04)) { // separate unknowns, of very different but sufficient precision
            int n = r.range(2, 12), id = 1;
            double lo = r.logu(1e-6, 1e-3), hi = lo * std::sqrt(r.logu(1e8, 5e11));
            std::vector<L> want;
            for (int i = 0; i < n; i++) {
                VarSpec v;
                v.id = i;
                v.init = VectorXd::Constant(1, 10 * r.n());
                s.vars.push_back(v);
                double sg = i == 0 ? lo : i == 1 ? hi : r.logu(lo, hi);
                L num = 0, den = 0;
                const int priors = r.range(1, 3);
                for (int k = priors; k > 0; k--) {
                    FacSpec f;
                    f.id = id++;
                    f.v = {i};
                    f.s1 = sg * std::sqrt((double)priors); // (their information adds up to 1 / sg^2)
                    f.p = VectorXd::Constant(1, 10 * r.n());
                    num += (L)f.p[0] / f.s1 / f.s1;
                    den += 1.0L / f.s1 / f.s1;
                    s.facs.push_back(f);
                }
                want.push_back(num / den);
            }
            if (1 / (hi * hi) < 1e-12) throw Skip();
            Scene sc = build(s);
            OptimizerSettings q;
            q.method = OptimizerMethod::GaussNewton;
            q.max_num_iterations = (size_t)r.range(1, 3);
            SparseOptimizer opt;
            opt.setup(sc.g, q);
            opt.optimize();
            c.eval();
            c.count("separate-precisions");
            auto ctx = [&]() { return str(" status ", (int)opt.current_stats_.status, " sigmas ", lo, "..", hi, " of ", s.describe()); };
            c.check(opt.current_stats_.valid, "refused", ctx());
            for (int i = 0; i < n; i++)
                c.check(std::fabs(sc.vars[i]->value()[0] - (double)want[i]) <= 1e-9, "minimiser:gn", str(sc.vars[i]->value()[0], " for ", (double)want[i], ctx()));
            Hash h;
            h.u(s.hash());
            c.cover(h.h);
            return;
        }
        if (r.p(0.25)) { // the generator shared with the other monitors
            GenOpt o = genOpt(r);
            o.fam = F_LINEAR;
            o.noise = r.logu(0.1, 100);
            o.perturb = r.logu(0.01, 100);
            s = genProblem(r, o).spec;
        } else
            s = linearSpec(r, c.thorough && r.p(0.2));
        auto st = initialStates(s);
        int rank = 0;
        Layout l = layout(s, st);
        if (l.n == 0) throw Skip();
        L cond = refCondition(s, st, &rank);
        // where the unknowns are not determined, priors are added
        if (!(cond < 1e9L) || l.m < l.n) {
            std::set<int> used;
            for (auto& f : s.facs)
                used.insert(f.id);
            for (size_t i = 0; i < s.vars.size(); i++) {
                if (s.vars[i].c) continue;
                FacSpec f;
                f.k = GP;
                do
                    f.id = (int)r.u64();
                while (!used.insert(f.id).second);
                f.v = {(int)i};
                f.s1 = r.logu(0.1, 2);
                f.p = s.vars[i].init + VectorXd::Constant(s.vars[i].init.size(), r.n());
                s.facs.push_back(f);
            }
            l = layout(s, st);
            cond = refCondition(s, st, &rank);
        }
        if (!(cond < 1e9L)) throw Skip();
        const bool lm = r.p(0.5);
        // Gauss-Newton does not care about the scale of the sigmas (Levenberg-Marquardt's damping is absolute)
        if (!lm && r.p(0.3)) {
            Eigen::JacobiSVD<MatL> svd(refJacobian(s, st));
            double small = (double)svd.singularValues().minCoeff();
            double up = std::min(1e6, small / 1e-6); // pivots stay above what counts as singular
            double k = up > 1 && r.p(0.7) ? r.logu(std::max(1.0, up * 1e-3), up) : r.logu(1e-6, 1);
            for (auto& f : s.facs)
                f.s1 *= k, f.s2 *= k;
            c.count("scaled-sigmas");
        }
        // the minimiser by a direct dense solve of the whitened system (QR, long double)
        MatL J = refJacobian(s, st);
        Eigen::ColPivHouseholderQR<MatL> qr(J);
        auto want = st;
        for (int k = 0; k < 2; k++) // (the reference Jacobian comes from differences: the second pass removes their rounding)
            refPlus(s, want, -qr.solve(refResidual(s, want)));
        L costMin = refResidual(s, want).squaredNorm();
        Scene sc = build(s);
        OptimizerSettings q;
        q.method = lm ? OptimizerMethod::LevenbergMarquardt : OptimizerMethod::GaussNewton;
        q.max_num_iterations = lm ? 200 : (size_t)r.range(1, 5);
        q.step_tolerance = 1e-13;
        q.residual_tolerance = 0;
        q.initial_lambda = lm ? r.logu(1e-8, 1e1) : 1e-3;
        q.lambda_down_factor = r.uni(0.05, 0.3);
        SparseOptimizer opt;
        // the same optimizer again on the same problem in another order of insertion
        const int rounds = r.p(0.3) ? r.range(2, 3) : 1;
        for (int round = 0; round < rounds; round++) {
        if (round > 0) {
            for (size_t i = 0; i < st.size(); i++)
                if (!s.vars[i].c) sc.vars[i]->set_value_from_vector(st[i].toValue());
            regraph(sc, r);
            c.count("another-order-same-optimizer");
        }
        opt.setup(sc.g, q);
        opt.optimize();
        auto got = sc.states();
        c.eval();
        c.count(lm ? "lm" : "gn");
        L size = 1;
        for (size_t i = 0; i < st.size(); i++)
            size = std::max({size, (L)want[i].v.norm(), (L)st[i].v.norm()});
        auto ctx = [&]() {
            return str(lm ? " LM" : " GN", " status ", (int)opt.current_stats_.status, " iterations ", opt.current_stats_.current_iteration, " cost ",
                       (double)opt.current_stats_.chi2, " minimum ", (double)costMin, " condition ", (double)cond, " of ", s.describe());
        };
        L worst = 0;
        size_t wi = 0;
        for (size_t i = 0; i < st.size(); i++)
            if (got[i].dist(want[i]) > worst) {
                worst = got[i].dist(want[i]);
                wi = i;
            }
        // normal equations in double lose about cond * 1e-16; the damped method also stops on the step or on rounding of the cost
        L tol = size * (1e-10L + cond * 1e-15L);
        if (lm) tol += size * 1e-6L + std::sqrt(cond) * 1e-7L * (std::sqrt(costMin) + size * 1e-3L) * 1e-1L;
        c.check(worst <= tol, lm ? "minimiser:lm" : "minimiser:gn",
                str("variable ", s.vars[wi].id, " is off by ", (double)worst, " (tolerance ", (double)tol, "): ", mstr(got[wi].toValue().transpose()), " for ",
                    mstr(want[wi].toValue().transpose()), ctx()));
        c.check(std::fabs(opt.current_stats_.chi2 - (double)costMin) <= 1e-6 * (double)costMin + 1e-9 * (1 + (double)cond * 1e-6), lm ? "minimum:lm" : "minimum:gn", ctx());
        // one undamped step is all a linear problem needs
        if (!lm) c.check(opt.current_stats_.status != OptimizerStatus::FAILED && opt.current_stats_.status != OptimizerStatus::SINGULAR_HESSIAN &&
                             (opt.current_stats_.status != OptimizerStatus::ILL_CONDITIONED || cond > 1e8L), "refused", ctx());
        if (c.want_sample()) c.sample(ctx());
        }
        for (auto& f : s.facs)
            c.count(fkName(f.k));
        Hash h;
        h.u(s.hash());
        h.u(lm);
        c.cover(h.h);
    }
} // namespace vp
