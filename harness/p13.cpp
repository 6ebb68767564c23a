// P13: optimizer statistics and status are the truth about the result.
#include "userfac.hpp"
#include "factorama/generic_variable.hpp"
#include "factorama/generic_prior_factor.hpp"

namespace vp
{
    bool inDomain(const FacSpec& f, const std::vector<RVar>& st); // gen.cpp
    const char *kProperty = "P13";
    long n_cases(bool t) { return t ? 80000 : 10000; }

    static const char *stName(OptimizerStatus s)
    {
        static const char *n[] = {"SUCCESS", "RUNNING", "SINGULAR_HESSIAN", "ILL_CONDITIONED", "DIVERGED", "FAILED"};
        return (int)s >= 0 && (int)s < 6 ? n[(int)s] : "?";
    }
    // the cost from the factors themselves, at the current values
    static double cost(const Scene& sc)
    {
        double x = 0;
        for (auto& f : sc.facs)
            x += f->compute_residual().squaredNorm();
        return x;
    }
    static bool near(double a, double b, double rel)
    {
        if (std::isnan(b)) return std::isnan(a);
        if (std::isinf(b)) return a == b;
        return std::fabs(a - b) <= rel * std::fabs(b) + 1e-300;
    }

    void run_case(Ctx& c)
    {
        Rng& r = c.rng;
        GenOpt o = genOpt(r);
        o.size = r.range(1, 7);
        largeCase(c, o, 200, 20, 50);
        o.p2b_local = false; // (see known_findings.json)
        o.planes = r.p(0.3);
        o.pconst = r.p(0.1) ? 1.0 : r.p(0.5) ? 0.2 : 0;
        // how good the start is: at the optimum, near, far, absurd
        int start = r.range(0, 9);
        bool atOptimum = start <= 1;
        o.perturb = start <= 4 ? 0.05 : start <= 7 ? r.uni(0.3, 2) : r.logu(3, 300);
        o.noise = r.p(0.4) ? 0 : r.logu(0.1, 10);
        Problem P = genProblem(r, o);
        Spec& s = P.spec;
        bool linear = true;
        for (auto& f : s.facs)
            linear &= f.k == GP || f.k == GB || f.k == LV;
        if (atOptimum) {
            if (o.planes) throw Skip();
            auto st = initialStates(s);
            RefSolve q = refSolve(s, st);
            if (!q.ok || q.cond > 1e6L) throw Skip();
            for (auto& f : s.facs)
                if (!inDomain(f, st)) throw Skip(); // an optimum at an edge of a factor's domain
            for (size_t i = 0; i < s.vars.size(); i++)
                if (!s.vars[i].c) setInit(s.vars[i], st[i]);
        }
        // an inert factor that counts how often the problem is linearised
        std::shared_ptr<FaultFactor> meter;
        auto meterVar = std::make_shared<GenericVariable>(0, VectorXd::Zero(1));
        meterVar->set_constant(true);
        const bool metered = r.p(0.5);
        Scene sc = build(s, !metered);
        if (metered) {
            std::set<int> used;
            for (auto& f : s.facs)
                used.insert(f.id);
            int id = 1;
            while (used.count(id))
                id++;
            meter = std::make_shared<FaultFactor>(std::make_shared<GenericPriorFactor>(id, meterVar.get(), VectorXd::Zero(1), 1.0));
            sc.g->add_factor(meter);
            sc.g->finalize_structure();
        }
        SparseOptimizer opt;
        const int runs = r.p(0.3) ? 3 : 1;
        for (int run = 0; run < runs; run++) {
            OptimizerSettings q = genSettings(r);
            if (atOptimum) {
                q.learning_rate = 1;
                q.step_tolerance = 1e-6;
                q.max_num_iterations = (size_t)r.range(1, 20);
            }
            if (!atOptimum && sc.g->num_values() < 30 && r.p(0.02)) { // long
                q.max_num_iterations = (size_t)r.range(100, 700);
                q.learning_rate = r.uni(0.01, 0.1);
                q.step_tolerance = q.residual_tolerance = 0;
                c.count("long-runs");
            }
            auto st0 = sc.states();
            double c0;
            L refc0 = refResidual(s, st0).squaredNorm();
            try {
                c0 = cost(sc);
            } catch (const std::runtime_error&) {
                throw Skip();
            }
            bool escaped = false;
            const long lin0 = meter ? meter->njac : 0;
            opt.setup(sc.g, q);
            try {
                opt.optimize();
            } catch (const std::runtime_error&) {
                escaped = true;
            }
            if (escaped) throw Skip();
            bool threw = false;
            double c1 = 0;
            try {
                c1 = cost(sc);
            } catch (const std::runtime_error&) {
                threw = true; // left where a factor has no value
            }
            auto& a = opt.initial_stats_;
            auto& b = opt.current_stats_;
            auto ctx = [&]() {
                return str(" ", q.method == OptimizerMethod::GaussNewton ? "GN" : "LM", " status ", stName(b.status), " valid ", b.valid, " iterations ", b.current_iteration,
                           "/", q.max_num_iterations, " cost ", c0, " -> ", c1, " reported ", a.chi2, " -> ", b.chi2, " tol ", q.step_tolerance, "/", q.residual_tolerance,
                           " lambda ", q.initial_lambda, "..", q.max_lambda, " of ", s.describe());
            };
            c.eval();
            c.count(str("status:", stName(b.status)));
            c.count(q.method == OptimizerMethod::GaussNewton ? "GN" : "LM");
            c.check(near(a.chi2, c0, 1e-11), "initial-cost", ctx());
            c.check(near(a.residual_norm, std::sqrt(c0), 1e-11), "initial-norm", str(a.residual_norm, ctx()));
            // (against the model as well; residuals near zero carry rounding of the measurements)
            bool modelled = !s.facs.empty(); // (a landmark behind the camera has no documented bearing projection)
            for (auto& f : s.facs)
                modelled &= f.k != BP2 || inDomain(f, st0);
            if (modelled) c.check(std::fabs(a.chi2 - (double)refc0) <= 1e-6 * (1 + (double)refc0), "initial-cost-model", str((double)refc0, ctx()));
            c.check(b.status != OptimizerStatus::RUNNING, "still-running", ctx());
            bool finiteAll = finite(sc);
            if (b.status == OptimizerStatus::FAILED) {
                // a factor or the linear algebra gave up: the cost of the step cannot be promised
            } else if (!threw) {
                // the restored state after a rejected step carries rounding of about 1e-12
                c.check(near(b.chi2, c1, 1e-9) || std::fabs(b.chi2 - c1) <= 1e-9 * (1e-6 + std::sqrt(std::fabs(c1))), "final-cost", ctx());
                c.check(near(b.residual_norm, std::sqrt(c1), 1e-9) || std::fabs(b.residual_norm - std::sqrt(c1)) <= 1e-9, "final-norm", str(b.residual_norm, ctx()));
            }
            bool possible = sc.g->num_values() > 0 && q.max_num_iterations > 0;
            c.check(b.current_iteration >= 0 && b.current_iteration <= (int)q.max_num_iterations, "iterations-over-limit", ctx());
            bool linalgFailed = b.status == OptimizerStatus::SINGULAR_HESSIAN || b.status == OptimizerStatus::ILL_CONDITIONED || b.status == OptimizerStatus::FAILED;
            c.check(!possible || b.current_iteration > 0 || linalgFailed, "no-iteration", ctx());
            if (!possible) {
                c.check(b.current_iteration == 0, "iterations-from-nothing", ctx());
                c.count("nothing-to-do");
            }
            if (meter && !linalgFailed && !threw) {
                c.count("linearisations-counted");
                c.check(meter->njac - lin0 == b.current_iteration, "iteration-count", str(meter->njac - lin0, " linearisations", ctx()));
            }
            // what moved, in local coordinates
            L moved = 0, length = 0;
            auto st1 = sc.states();
            bool flat = true; // (the local coordinates of a move are its increment)
            for (size_t i = 0; i < st0.size(); i++)
                if (finiteAll) {
                    L d = st1[i].dist(st0[i]);
                    moved = std::max(moved, d);
                    length += d * d;
                    flat &= st0[i].k != PLANE && st0[i].k != IR;
                }
            length = std::sqrt(length);
            if (finiteAll && flat && !linalgFailed && !threw && b.current_iteration == 1 && length < 1) {
                c.count("one-step-lengths");
                if (q.learning_rate != 1 && length > 1e-3) c.count("one-step-lengths-scaled");
                c.check(std::fabs(b.delta_norm - (double)length) <= 1e-6 * (double)length + 1e-7, "step-length", str(b.delta_norm, " for a move by ", (double)length, ctx()));
            }
            if (b.status == OptimizerStatus::SUCCESS) {
                c.check(finiteAll && std::isfinite(b.chi2) && !threw, "success-not-finite", ctx());
                // a last step below the tolerance may trade rounding
                double slack = q.step_tolerance > 1e-6 ? 1e-2 : 1e-8;
                c.check(c1 <= c0 * (1 + slack) + slack * slack + 1e-13, "success-but-worse", ctx());
                c.check(b.valid, "success-not-valid", ctx());
            }
            if (!(c1 <= c0 * (1 + 1e-2) + 1e-4) || !finiteAll || threw)
                c.check(b.status == OptimizerStatus::DIVERGED || b.status == OptimizerStatus::FAILED, "worse-not-reported", ctx());
            if (!std::isfinite(c1) || !finiteAll) c.check(!b.valid, "not-finite-but-valid", ctx());
            if (linalgFailed) c.check(!b.valid, "failed-but-valid", ctx());
            if (b.status == OptimizerStatus::DIVERGED && std::isfinite(c1))
                c.check(c1 >= c0 * (1 - 1e-9) - 1e-18 , "diverged-but-better", ctx());
            if (q.method == OptimizerMethod::LevenbergMarquardt && !threw)
                c.check(c1 <= c0 * (1 + 1e-9) + 1e-15, "lm-worse", ctx());
            if (atOptimum) {
                c.count("from-optimum");
                L tol = 1e-5L;
                c.check(moved <= tol, "left-the-optimum", str((double)moved, ctx()));
                // with the undamped step below the tolerance there is nothing to complain about
                if (possible) c.check(b.status == OptimizerStatus::SUCCESS && b.valid, str("optimum-not-success:", q.method == OptimizerMethod::GaussNewton ? "GN" : "LM"), ctx());
            }
            // full convergence: a further run has nothing to do
            if (b.status == OptimizerStatus::SUCCESS && possible && b.current_iteration < (int)q.max_num_iterations && q.step_tolerance < 1e-8 &&
                q.residual_tolerance < 1e-10 && q.learning_rate == 1 && linear && q.method == OptimizerMethod::GaussNewton) {
                auto z = st1;
                RefSolve m = refSolve(s, z);
                if (m.ok && m.cond < 1e7L) c.check(c1 <= (double)m.cost * (1 + 1e-6) + 1e-10, "success-above-minimum", str((double)m.cost, ctx()));
                c.count("converged-linear");
            }
            Hash h;
            h.u(s.hash());
            h.u((uint64_t)run);
            h.d(b.chi2);
            h.u((uint64_t)b.status);
            c.cover(h.h);
            if (c.want_sample()) c.sample(ctx());
            if (!finiteAll || threw) break;
        }
    }
} // namespace vp
