// P15: well-posed nonlinear problems are recovered; converged results are stationary points.
#include "userfac.hpp"

namespace vp
{
    bool inDomain(const FacSpec& f, const std::vector<RVar>& st); // gen.cpp
    const char *kProperty = "P15";
    long n_cases(bool t) { return t ? 60000 : 9000; }

    // the textbook Gauss-Newton iteration on the reference model; true if every full step lowers the cost until the step vanishes
    static bool plainGN(const Spec& s, std::vector<RVar>& st, int maxit, int& its, L stop)
    {
        VecL r = refResidual(s, st);
        L cost = r.squaredNorm();
        for (its = 1; its <= maxit; its++) {
            MatL J = refJacobian(s, st);
            MatL H = J.transpose() * J;
            VecL dx = H.ldlt().solve(-(J.transpose() * r));
            L n = dx.norm();
            if (!(n < 2)) return false; // not "near"
            refPlus(s, st, dx);
            for (auto& f : s.facs)
                if (!inDomain(f, st)) return false;
            r = refResidual(s, st);
            L c2 = r.squaredNorm();
            if (n < stop) return true;
            if (!(c2 < cost * (1 + 1e-13L))) return false;
            cost = c2;
        }
        return false;
    }

    void run_case(Ctx& c)
    {
        Rng& r = c.rng;
        GenOpt o = genOpt(r);
        o.fam = r.p(0.15) ? F_LINEAR : r.p(0.4) ? F_2D : r.p(0.7) ? F_3D : F_MIXED;
        o.size = c.thorough && r.p(0.02) ? r.range(12, 24) : r.range(2, 9);
        largeCase(c, o, 250, 20, 50);
        o.p2b_local = false; // (see known_findings.json)
        o.planes = o.fam == F_3D && r.p(0.25);
        bool noisy = r.p(0.5);
        o.noise = noisy ? r.logu(0.05, 1) : 0;
        o.perturb = r.logu(1e-3, noisy ? 0.05 : 0.12);
        o.sig_lo = r.logu(0.02, 0.3);
        o.sig_hi = o.sig_lo * r.logu(1.5, 12);
        o.pos_scale = r.logu(1, 15);
        const bool conflict = noisy && r.p(0.35); // measurements that contradict one another by many sigmas: slow, linear convergence
        if (conflict) {
            const double d = r.logu(0.05, 0.8); // radians, metres
            o.sig_lo = r.logu(0.004, 0.1);
            o.sig_hi = o.sig_lo * r.uni(1, 2);
            o.noise = d / o.sig_lo;
            o.more_priors = r.uni(1, 4);
            o.planes = false;
        }
        Problem P = genProblem(r, o);
        const Spec& s = P.spec;
        if (layout(s, P.truth).n == 0) throw Skip();
        bool plane = false, ir = false;
        for (auto& v : s.vars) {
            plane |= v.k == PLANE && !v.c;
            ir |= v.k == IR && !v.c;
        }
        for (auto& f : s.facs)
            if (!inDomain(f, P.truth)) throw Skip();
        auto st = initialStates(s);
        for (auto& f : s.facs)
            if (!inDomain(f, st)) throw Skip();
        // reference: where a start like this leads
        auto ref = st;
        bool gnOk = false;
        int gnIts = 0;
        L cond = 1;
        if (!plane) {
            gnOk = plainGN(s, ref, conflict ? 60 : 20, gnIts, 1e-9L);
            if (!gnOk) throw Skip(); // the start is not near in the sense of the property
            for (auto& f : s.facs)
                if (!inDomain(f, ref)) throw Skip();
            cond = refCondition(s, ref);
            if (cond > 1e6L) throw Skip();
        }
        const L scale = (L)o.pos_scale;
        const L tol = 2e-6L * (1 + scale);
        SparseOptimizer shared;
        const bool share = r.p(0.4); // one optimizer for both runs, on graphs of another order of insertion
        for (int method = plane ? 1 : 0; method < 2; method++) {
            Scene sc = build(s);
            if (share && r.p(0.7)) regraph(sc, r);
            OptimizerSettings q;
            q.method = method ? OptimizerMethod::LevenbergMarquardt : OptimizerMethod::GaussNewton;
            q.max_num_iterations = 200;
            q.step_tolerance = 1e-9;
            q.residual_tolerance = 0;
            q.initial_lambda = r.logu(1e-6, 1e-2);
            q.max_lambda = 1e10;
            q.lambda_up_factor = r.uni(3, 12);
            q.lambda_down_factor = r.uni(0.05, 0.3);
            q.learning_rate = method || r.p(0.7) ? 1.0 : r.uni(0.6, 1.0);
            q.verbose = false;
            SparseOptimizer own;
            SparseOptimizer& opt = share ? shared : own;
            opt.setup(sc.g, q);
            if (share) c.count("optimizer-shared");
            opt.optimize();
            auto& b = opt.current_stats_;
            auto z = sc.states();
            auto ctx = [&]() {
                return str(method ? " LM" : " GN", " status ", (int)b.status, " valid ", b.valid, " iterations ", b.current_iteration, " cost ", opt.initial_stats_.chi2, " -> ",
                           b.chi2, " delta ", b.delta_norm, " lambda ", q.initial_lambda, " rate ", q.learning_rate, " cond ", (double)cond, " of ", s.describe());
            };
            c.eval();
            if (conflict) c.count("conflicting-measurements");
            c.count(str(method ? "LM" : "GN", noisy ? "-noisy" : "-noise-free"));
            for (auto& f : s.facs)
                c.count(str("factor:", fkName(f.k)));
            if (plane) c.count("free-plane");
            if (noisy && plane && (b.status != OptimizerStatus::SUCCESS || b.current_iteration >= (int)q.max_num_iterations)) {
                c.count("free-plane-not-converged"); // (no reference solver says that it should)
                continue;
            }
            c.check(b.status == OptimizerStatus::SUCCESS && b.valid, str("not-success:", method ? "LM" : "GN"), ctx());
            if (!finite(sc)) {
                c.viol("not-finite", ctx());
                continue;
            }
            if (!noisy) {
                // the scale of a plane's normal is no unknown, so every estimate is at the truth
                for (size_t i = 0; i < z.size(); i++) {
                    L d = z[i].dist(P.truth[i]);
                    L t = tol * (plane ? 20 : 1);
                    if (z[i].k == IR) t = 1e-6L;
                    c.check(d <= t, str("truth-missed:", vkName(z[i].k)), str("variable ", s.vars[i].id, " off by ", (double)d, ctx()));
                }
                c.check(b.chi2 < 1e-10, "cost-left", ctx());
            } else {
                // stationary: the gradient of the weighted cost vanishes, i.e. a Gauss-Newton step from here gains nothing
                VecL res = refResidual(s, z);
                MatL J = refJacobian(s, z);
                VecL g = J.transpose() * res;
                MatL H = J.transpose() * J;
                if (plane) H.diagonal().array() += 1e-6L;
                L gain = g.dot(H.ldlt().solve(g)); // decrease of the squared norm predicted by the model
                L rn = res.norm();
                bool stationary = gain <= 1e-11L * (rn * rn + 1e-3L); // (at most 2e-13 was seen)
                if (!stationary && method && b.delta_norm == 0 && plane) {
                    // the documented limit of five trials per iteration: did one of those steps lower the cost?
                    bool could = false;
                    L lam = b.damping_parameter / q.lambda_up_factor; // the last one tried
                    MatL H0 = J.transpose() * J;
                    for (int k = 0; k < 5; k++, lam /= q.lambda_up_factor) {
                        MatL A = H0;
                        A.diagonal().array() += lam;
                        auto z2 = z;
                        refPlus(s, z2, VecL(A.ldlt().solve(-g)));
                        could |= refResidual(s, z2).squaredNorm() < rn * rn * (1 - 1e-6L);
                    }
                    if (!could) {
                        c.count("trial-limit");
                        continue;
                    }
                }
                c.check(stationary, "not-stationary", str("predicted gain ", (double)gain, " of ", (double)(rn * rn), ctx()));
                c.count("stationary-checked");
            }
            if (!plane) {
                // agrees with the independent solver started at the same place
                for (size_t i = 0; i < z.size(); i++) {
                    L d = z[i].dist(ref[i]);
                    c.check(d <= 20 * tol, "differs-from-reference-solution", str("variable ", s.vars[i].id, " off by ", (double)d, ctx()));
                }
                c.count("agreed-with-reference");
            }
            (void)ir;
            Hash h;
            h.u(s.hash());
            h.u((uint64_t)method);
            h.d(b.chi2);
            c.cover(h.h);
            if (c.want_sample()) c.sample(ctx());
        }
    }
} // namespace vp
