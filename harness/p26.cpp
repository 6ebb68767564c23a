// P26: the optimizer settings govern every step as documented. Probe factors record the state of each evaluation while
// optimize() runs. From every visited estimate the step the settings ask for is computed independently (dense normal
// equations in long double), and the recorded history has to be the one that these steps, the damping rules and the
// stopping rules produce.
#include "userfac.hpp"
#include <iostream>

namespace vp
{
    const char *kProperty = "P26";
    long n_cases(bool t) { return t ? 200000 : 16000; }

    struct Ev {
        bool jac, bad = false; // a trial made to look bad
        std::vector<RVar> st;
        VectorXd bits;
        double norm = 0; // of the residual
        MatL J;          // Jacobian events only
        VecL r;
    };

    void run_case(Ctx& c)
    {
        Rng& r = c.rng;
        GenOpt o = genOpt(r);
        o.size = c.thorough && r.p(0.1) ? r.range(10, 25) : r.range(1, 7);
        largeCase(c, o, 250, 20, 40);
        o.p2b_local = true;
        o.perturb = r.p(0.5) ? r.logu(1e-3, 0.1) : r.p(0.7) ? r.uni(0.1, 0.7) : r.uni(0.7, 3);
        o.noise = r.p(0.3) ? 0 : r.logu(0.1, 10);
        Spec s = genProblem(r, o).spec;
        const bool weak = r.p(0.06);
        if (weak) { // unknowns that hardly anything depends on
            int id = 0;
            for (auto& v : s.vars)
                id = std::max(id, std::abs(v.id));
            for (auto& f : s.facs)
                id = std::max(id, std::abs(f.id));
            if (id > 2000000000) throw Skip();
            for (int n = r.range(1, 2); n > 0; n--) {
                VarSpec v;
                v.id = ++id;
                v.init = VectorXd::Constant(1, r.n());
                FacSpec f;
                f.id = id;
                f.v = {(int)s.vars.size()};
                f.p = v.init + VectorXd::Constant(1, r.n() * r.logu(1, 1e6));
                f.s1 = r.logu(1e4, 1e9);
                s.vars.push_back(v);
                s.facs.push_back(f);
            }
        }
        Scene sc;
        sc.spec = s;
        sc.g = std::make_shared<FactorGraph>();
        for (auto& v : s.vars)
            sc.vars.push_back(makeVar(v));
        for (size_t i = 0; i < s.vars.size(); i++)
            if (s.vars[i].in_graph) sc.g->add_variable(sc.vars[i]);
        std::vector<std::shared_ptr<Factor>> plain;
        for (auto& f : s.facs)
            plain.push_back(makeFac(f, sc.vars));
        const Layout lay = layout(s, sc.states());
        if (lay.n == 0 || s.facs.empty()) throw Skip();
        std::map<const Variable *, int> where;
        for (size_t i = 0; i < sc.vars.size(); i++)
            where[sc.vars[i].get()] = (int)i;
        std::vector<Ev> log;
        bool active = false, inside = false;
        std::set<size_t> seenR, seenJ;
        // trial evaluations may be made to look bad, so that they are rejected
        double prej = r.p(0.5) ? 0 : r.uni(0.1, 0.8);
        bool bad = false, lm = false;
        double worst = 0;
        auto apart = [](const std::vector<RVar>& a, const std::vector<RVar>& b) {
            L d = 0; // (a rolled back rotation is the same only to rounding)
            for (size_t i = 0; i < a.size(); i++)
                d = std::max(d, a[i].dist(b[i]) / (1 + (L)a[i].v.norm()));
            return d > 1e-6L;
        };
        auto now = [&](bool jac) {
            Ev e;
            e.jac = jac;
            e.st = sc.states();
            e.bits = sc.bits();
            inside = true;
            e.r = VecL::Zero(lay.m);
            if (jac) e.J = MatL::Zero(lay.m, lay.n);
            for (size_t k = 0; k < plain.size(); k++) {
                VectorXd x = plain[k]->compute_residual();
                e.r.segment(lay.row[k], x.size()) = x.cast<L>();
                if (!jac) continue;
                std::vector<MatrixXd> b;
                plain[k]->compute_jacobians(b);
                auto vs = plain[k]->variables();
                for (size_t j = 0; j < vs.size() && j < b.size(); j++) {
                    int col = lay.col[where.at(vs[j])];
                    if (col >= 0 && b[j].size()) e.J.block(lay.row[k], col, b[j].rows(), b[j].cols()) += b[j].cast<L>();
                }
            }
            e.norm = (double)e.r.norm();
            inside = false;
            return e;
        };
        for (size_t k = 0; k < s.facs.size(); k++) {
            auto w = std::make_shared<FaultFactor>(plain[k]);
            w->onRes = [&, k](VectorXd& x) {
                if (!active || inside) return;
                if (seenR.empty() || seenR.count(k)) {
                    seenR.clear();
                    Ev e = now(false);
                    bad = false;
                    if (prej > 0 && log.size()) {
                        size_t j = log.size();
                        while (j > 0 && !log[j - 1].jac)
                            j--;
                        // a state not seen before in this iteration: a trial
                        if (j > 0 && apart(log.back().st, e.st) && apart(log[j - 1].st, e.st) && r.p(prej)) {
                            bad = lm;
                            worst = 1e3 * (1 + log[j - 1].norm);
                            if (bad) c.count("made-to-be-rejected");
                        }
                    }
                    e.bad = bad;
                    log.push_back(std::move(e));
                }
                seenR.insert(k);
                if (bad) x[0] += worst;
            };
            w->onJac = [&, k](std::vector<MatrixXd>&) {
                if (!active || inside) return;
                if (seenJ.empty() || seenJ.count(k)) {
                    seenJ.clear();
                    log.push_back(now(true));
                }
                seenJ.insert(k);
            };
            sc.facs.push_back(w);
            sc.g->add_factor(w);
        }
        sc.g->finalize_structure();

        SparseOptimizer opt;
        OptimizerSettings q;
        const int runs = r.p(0.35) ? r.range(2, 3) : 1;
        for (int run = 0; run < runs; run++) {
            bool again = run > 0 && r.p(0.3); // optimize() without a new setup: the settings stay
            if (!again) {
                q = genSettings(r);
                q.max_num_iterations = (size_t)(r.p(0.06) ? 0 : r.p(0.3) ? r.range(1, 3) : r.range(4, c.thorough ? 30 : 12));
                if (r.p(0.3)) q.step_tolerance = r.logu(1e-4, 0.3);
                if (r.p(0.3)) q.residual_tolerance = r.logu(1e-3, 0.3);
                if (r.p(0.1)) q.step_tolerance = 0;
                q.check_rank_deficiency = r.p(0.2);
                if (q.method == OptimizerMethod::LevenbergMarquardt) {
                    q.learning_rate = 1; // "for GN"
                    q.initial_lambda = r.p(0.8) ? r.logu(1e-4, 1e3) : r.p(0.7) ? r.logu(1e3, 1e9) : r.logu(1e-9, 1e-4);
                    q.max_lambda = q.initial_lambda * (r.p(0.5) ? r.uni(1, 30) : r.logu(10, 1e6));
                    if (r.p(0.3)) q.lambda_up_factor = r.uni(1.5, 4);
                } else if (r.p(0.5))
                    q.learning_rate = r.uni(0.05, 1.6);
                if (lay.n < 30 && r.p(0.02)) { // long
                    q.max_num_iterations = (size_t)r.range(40, 300);
                    q.step_tolerance = 1e-13;
                    q.residual_tolerance = 0;
                    if (q.method == OptimizerMethod::GaussNewton) q.learning_rate = r.uni(0.02, 0.1);
                    c.count("long-runs");
                }
                // nearly singular equations: only the damping of the first iteration is followed, see below
                if (weak && q.method == OptimizerMethod::LevenbergMarquardt) {
                    q.initial_lambda = r.logu(1e-12, 1e-2);
                    q.max_lambda = q.initial_lambda * r.logu(1, 1e8);
                    q.max_num_iterations = r.p(0.8) ? 1 : 3;
                }
                if (run > 0 && r.p(0.4)) {
                    regraph(sc, r);
                    c.count("another-order-same-optimizer");
                }
                opt.setup(sc.g, q);
            }
            const bool gn = q.method == OptimizerMethod::GaussNewton;
            if (run > 0 && r.p(0.5)) { // somebody moves the variables between the runs
                VectorXd x(lay.n);
                for (int i = 0; i < lay.n; i++)
                    x[i] = 0.1 * r.n();
                sc.g->apply_increment(x);
            }
            Ev start = now(false);
            if (!std::isfinite(start.norm)) break;
            log.clear();
            seenR.clear();
            seenJ.clear();
            std::ostringstream out;
            auto *old = std::cout.rdbuf(out.rdbuf());
            lm = !gn;
            active = true;
            try {
                opt.optimize();
            } catch (...) {
                active = false;
                std::cout.rdbuf(old);
                throw;
            }
            active = false;
            std::cout.rdbuf(old);
            Ev end = now(false);
            const OptimizerStats& S = opt.current_stats_;
            auto ctx = [&]() {
                return str(gn ? " GN" : " LM", " rate ", q.learning_rate, " lambda ", q.initial_lambda, "..", q.max_lambda, " x", q.lambda_up_factor, "/x", q.lambda_down_factor,
                           " tolerances ", q.step_tolerance, ",", q.residual_tolerance, " max ", q.max_num_iterations, " run ", run, " status ", (int)S.status, " after ",
                           S.current_iteration, " of ", s.describe());
            };
            c.eval();
            c.count(gn ? "GN" : "LM");
            if (run) c.count(again ? "same-settings-again" : "new-settings");
            if (!q.verbose) c.check(out.str().empty() || out.str().find("Warning") != std::string::npos, "not-silent", str("printed: ", out.str().substr(0, 200), ctx()));
            // (the 2D projection factor warns about points behind the camera)
            else {
                c.check(!out.str().empty(), "verbose-is-silent", ctx());
                c.count("verbose");
            }

            // --- the estimates at which Jacobians were evaluated are the iterations
            std::vector<size_t> J;
            for (size_t i = 0; i < log.size(); i++)
                if (log[i].jac) {
                    J.push_back(i);
                }
            c.check(J.size() <= q.max_num_iterations, "max-iterations", str(J.size(), ctx()));
            if (q.max_num_iterations > 0) c.check(!J.empty(), "no-iteration", ctx());
            double lambda = q.initial_lambda;
            bool whole = true; // the history was followed to its end
            L last_dx = -1;
            size_t followed = 0;
            for (size_t k = 0; k < J.size(); k++) {
                const Ev& b = log[J[k]];
                const bool last = k + 1 == J.size();
                const Ev& next = last ? end : log[J[k + 1]];
                whole = false;
                MatL H = b.J.transpose() * b.J;
                VecL g = b.J.transpose() * b.r;
                if (!H.allFinite() || !g.allFinite()) break;
                Eigen::SelfAdjointEigenSolver<MatL> es(H);
                L lo = es.eigenvalues().minCoeff(), hi = es.eigenvalues().maxCoeff();
                // a run may stop with an error where the equations are (nearly) singular; that is the matter of P16
                if (!(lo > 1e-9L) || hi / lo > 1e9L) {
                    c.count("singular-place");
                    break;
                }
                auto stepFor = [&](L lam) {
                    VecL d = (es.eigenvectors().transpose() * g).cwiseQuotient((es.eigenvalues().array() + lam).matrix());
                    return VecL(-(gn ? (L)q.learning_rate : 1.0L) * (es.eigenvectors() * d));
                };
                L size = 1;
                for (auto& v : b.st)
                    size = std::max(size, (L)v.v.norm());
                // distance of a recorded state from the estimate of this step, in units of the tolerance
                // (rounding of the solution, of the states, and of the value vector of a rotation rolled back)
                auto off = [&](const std::vector<RVar>& st, const VecL& dx) {
                    auto w = b.st;
                    refPlus(s, w, dx);
                    L d = 0;
                    for (size_t i = 0; i < w.size(); i++) {
                        L t = dx.norm() * (1e-7L + hi / lo * 1e-13L) + 1e-9L * size;
                        d = std::max(d, w[i].dist(st[i]) / t);
                    }
                    return d;
                };
                const VecL zero = VecL::Zero(lay.n);
                VecL dx;
                bool accepted = true;
                double lamUsed = lambda;
                if (gn) {
                    dx = stepFor(0);
                    if (!dx.allFinite()) break;
                    L e = off(next.st, dx);
                    // (an evaluation that throws or an error status leaves the estimate as it was: P16)
                    if (!c.check(e <= 1, "gauss-newton-step", str("iteration ", k, ": the next estimate is ", (double)e, " tolerances from the Gauss-Newton step of length ",
                                                                  (double)dx.norm(), ctx())))
                        break;
                    c.count("gn-steps");
                    if (q.learning_rate != 1 && off(next.st, dx / q.learning_rate) > 1) c.count("learning-rate-visible");
                } else {
                    // walk over the evaluations of this iteration
                    size_t stop = last ? log.size() : J[k + 1];
                    accepted = false;
                    bool lost = false;
                    int trials = 0;
                    for (size_t i = J[k] + 1; i < stop && !lost; i++) {
                        const Ev& t = log[i];
                        if (sameBits(t.bits, b.bits)) continue; // the estimate evaluated again
                        lamUsed = lambda;
                        dx = stepFor(lambda);
                        if (dx.norm() < 1e-8L * size) {
                            lost = true; // steps in the rounding noise cannot be told apart any more
                            break;
                        }
                        L e = off(t.st, dx);
                        if (e > 1 && off(t.st, zero) <= 1) continue; // rolled back to the estimate and evaluated again
                        if (!c.check(e <= 1, trials ? "damping-after-rejection" : k ? "damping-carried-on" : "initial-damping",
                                     str("iteration ", k, " trial ", trials, ": evaluated ", (double)e, " tolerances from the damped step of length ", (double)dx.norm(), " (undamped ",
                                         (double)stepFor(0).norm(), ") for lambda ", lambda, ctx()))) {
                            lost = true;
                            break;
                        }
                        trials++;
                        c.count("lm-trials");
                        if (off(t.st, stepFor(lambda * 1.2)) > 1 && off(t.st, stepFor(lambda / 1.2)) > 1) {
                            c.count(trials > 1 ? "lambda-visible-after-rejection" : k ? "lambda-visible-later" : "lambda-visible-first");
                            if (lambda == q.max_lambda) c.count("max-lambda-visible");
                        }
                        if (sameBits(t.bits, next.bits) && !t.bad) {
                            accepted = true;
                            lambda = std::max(lambda * q.lambda_down_factor, 1e-12);
                            // nothing else may be tried after an acceptance
                            for (size_t j = i + 1; j < stop; j++)
                                if (!sameBits(log[j].bits, next.bits)) c.viol("trial-after-acceptance", ctx());
                            break;
                        }
                        lambda = std::min(lambda * q.lambda_up_factor, q.max_lambda);
                    }
                    if (lost) break;
                    if (!trials) break; // (only rounding noise was left to try)
                    if (!accepted) dx = zero;
                    c.count(accepted ? "lm-accepted" : "lm-nothing-accepted");
                }
                followed++;
                whole = true;
                last_dx = accepted ? dx.norm() : 0;
                // --- stopping rules
                double imp = b.norm - next.norm;
                double slack = 1e-9 * (1e-3 + b.norm), n = (double)last_dx;
                bool mustStep = n < q.step_tolerance * (1 - 1e-6) - 1e-12, mayStep = n < q.step_tolerance * (1 + 1e-6) + 1e-12;
                bool mustRes = imp < q.residual_tolerance * (1 - 1e-6) - slack, mayRes = imp < q.residual_tolerance * (1 + 1e-6) + slack;
                if (!last)
                    c.check(!mustStep && !mustRes, mustStep ? "step-tolerance-ignored" : "residual-tolerance-ignored",
                            str("iteration ", k, ": step ", n, " improvement ", imp, " but the run goes on", ctx()));
                else if (J.size() < q.max_num_iterations) {
                    c.check(mayStep || mayRes || !std::isfinite(next.norm), "stopped-early",
                            str("iteration ", k, ": step ", n, " improvement ", imp, " residual ", next.norm, ctx()));
                    if (mustStep && !mayRes) c.count("stopped-on-step");
                    if (mustRes && !mayStep) c.count("stopped-on-residual");
                } else
                    c.count("stopped-on-iterations");
            }
            c.count("iterations-followed", (long)followed);
            // One iteration anywhere, also on nearly singular equations: damping that could not be solved with has grown
            // like damping that was rejected
            if (!gn && J.size() == 1) {
                double lam = q.initial_lambda;
                std::string all;
                bool ok = false;
                int ups = 0;
                for (int up = 0; up <= 5; up++) {
                    double down = std::max(lam * q.lambda_down_factor, 1e-12);
                    for (double x : {lam, down}) {
                        bool same = std::fabs(S.damping_parameter - x) <= 1e-9 * x;
                        if (same && !ok) ups = up;
                        ok |= same;
                        all += str(" ", x);
                    }
                    lam = std::min(lam * q.lambda_up_factor, q.max_lambda);
                }
                c.check(ok, "damping-of-one-iteration", str(S.damping_parameter, " not among", all, ctx()));
                c.count(ups ? "one-iteration-raised" : "one-iteration");
                if (!whole && ups) c.count("one-iteration-raised-singular");
            }
            if (whole && J.size()) {
                c.count("followed-to-the-end");
                c.check(std::fabs(S.delta_norm - (double)last_dx) <= 1e-6 * (double)last_dx + 1e-9, "reported-step", str(S.delta_norm, " for ", (double)last_dx, ctx()));
                if (!gn)
                    c.check(std::fabs(S.damping_parameter - lambda) <= 1e-9 * lambda || (lambda <= 1e-12 && S.damping_parameter <= 1.0001e-12), "reported-damping",
                            str(S.damping_parameter, " for ", lambda, ctx()));
                c.check(S.current_iteration == (int)J.size(), "reported-iterations", str(J.size(), ctx()));
            }
            if (J.empty()) c.check(sameBits(start.bits, end.bits), "moved-without-iteration", ctx());
            Hash h;
            h.u(s.hash());
            h.u((uint64_t)run * 100 + J.size());
            h.m(end.bits);
            c.cover(h.h);
            if (c.want_sample()) c.sample(str("followed ", followed, " of ", J.size(), " iterations, ", log.size(), " evaluations", ctx()));
        }
    }
} // namespace vp
