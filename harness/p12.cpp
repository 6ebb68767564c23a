// P12: Levenberg-Marquardt never ends worse, rolls back rejects and bounds damping. Every factor is wrapped in a
// probe, so that the sequence of evaluations (and the state each one saw) is recorded while optimize() runs; the
// recorded history is then checked against the specification of the method.
#include "userfac.hpp"

namespace vp
{
    const char *kProperty = "P12";
    long n_cases(bool t) { return t ? 80000 : 10000; }

    struct Ev {
        bool jac;               // Jacobian or residual evaluation
        std::vector<RVar> st;   // state seen
        VectorXd bits;
        double cost;            // sum of squares as the optimizer gets to see it (NaN: not finite, or thrown)
        bool thrown = false;
        double lambda;
    };

    static L dist(const std::vector<RVar>& a, const std::vector<RVar>& b)
    {
        L d = 0;
        for (size_t i = 0; i < a.size(); i++)
            d = std::max(d, a[i].dist(b[i]) / (1 + (L)a[i].v.norm()));
        return d;
    }

    void run_case(Ctx& c)
    {
        Rng& r = c.rng;
        GenOpt o = genOpt(r);
        o.size = r.range(1, 7);
        largeCase(c, o, 200, 20, 50);
        o.p2b_local = true;
        o.planes = r.p(0.3);
        o.perturb = r.p(0.4) ? 0.05 : r.p(0.7) ? r.uni(0.2, 1) : r.uni(1, 4); // far starts make rejections common
        o.noise = r.p(0.5) ? 0 : r.logu(0.1, 30);
        Spec s = genProblem(r, o).spec;
        Scene sc;
        sc.spec = s;
        sc.g = std::make_shared<FactorGraph>();
        for (auto& v : s.vars)
            sc.vars.push_back(makeVar(v));
        for (size_t i = 0; i < s.vars.size(); i++)
            if (s.vars[i].in_graph) sc.g->add_variable(sc.vars[i]);
        SparseOptimizer opt;
        std::vector<Ev> log;
        bool active = false, inside = false;
        std::vector<std::shared_ptr<Factor>> plain;
        for (auto& f : s.facs)
            plain.push_back(makeFac(f, sc.vars));
        // where the fault strikes: the n-th full evaluation of residuals or Jacobians
        enum { NONE, THROW_RES, NAN_RES, INF_RES, HUGE_RES, THROW_JAC, NAN_JAC } fault = NONE;
        long at = 0, span = 1;
        if (r.p(0.4)) {
            fault = (decltype(fault))r.range(1, 6);
            at = r.range(0, 9);
            span = r.p(0.5) ? 1 : r.p(0.5) ? r.range(2, 6) : 1000000;
        }
        uint64_t what = r.u64();
        long nr = 0, nj = 0; // full evaluations so far
        // evaluation order of the factors is the graph's business: an evaluation starts when a factor comes up again
        std::set<size_t> seenR, seenJ;
        bool badNow = false;
        auto now = [&]() {
            Ev e;
            e.st = sc.states();
            e.bits = sc.bits();
            e.lambda = opt.current_stats_.damping_parameter;
            e.cost = 0;
            inside = true;
            for (auto& f : plain) {
                try {
                    e.cost += f->compute_residual().squaredNorm();
                } catch (const std::exception&) {
                    e.cost = std::nan("");
                }
            }
            inside = false;
            return e;
        };
        size_t victim = s.facs.empty() ? 0 : (size_t)r.range(0, (int)s.facs.size() - 1);
        for (size_t k = 0; k < s.facs.size(); k++) {
            auto w = std::make_shared<FaultFactor>(plain[k]);
            w->onRes = [&, k](VectorXd& x) {
                if (!active || inside) return;
                if (seenR.empty() || seenR.count(k)) {
                    seenR.clear();
                    Ev e = now();
                    e.jac = false;
                    badNow = fault >= THROW_RES && fault <= HUGE_RES && nr >= at && nr < at + span;
                    if (badNow) {
                        e.cost = fault == HUGE_RES ? 1e300 : fault == INF_RES ? INFINITY : std::nan("");
                        e.thrown = fault == THROW_RES;
                        c.count(str("fault-residual-", fault == THROW_RES ? "throw" : fault == NAN_RES ? "nan" : fault == INF_RES ? "inf" : "huge"));
                    }
                    nr++;
                    log.push_back(std::move(e));
                }
                seenR.insert(k);
                if (badNow && k == victim) {
                    if (fault == THROW_RES) throwSome(what);
                    x[0] = fault == NAN_RES ? std::nan("") : fault == INF_RES ? INFINITY : 1e150;
                }
            };
            w->onJac = [&, k](std::vector<MatrixXd>& J) {
                if (!active || inside) return;
                if (seenJ.empty() || seenJ.count(k)) {
                    seenJ.clear();
                    Ev e = now();
                    e.jac = true;
                    log.push_back(std::move(e));
                    nj++;
                }
                seenJ.insert(k);
                if ((fault == THROW_JAC || fault == NAN_JAC) && nj - 1 >= at && nj - 1 < at + span && k == victim) {
                    c.count(fault == THROW_JAC ? "fault-jacobian-throw" : "fault-jacobian-nan");
                    if (fault == THROW_JAC) throwSome(what);
                    for (auto& m : J)
                        if (m.size()) m(0, 0) = std::nan("");
                }
            };
            sc.facs.push_back(w);
            sc.g->add_factor(w);
        }
        sc.g->finalize_structure();
        if (sc.g->num_values() == 0 || s.facs.empty()) throw Skip();
        auto st0 = sc.states();
        Ev start = now();
        if (!std::isfinite(start.cost)) throw Skip();

        const int runs = r.p(0.2) ? 2 : 1; // an optimizer may be used again
        for (int run = 0; run < runs; run++) {
            OptimizerSettings q = genSettings(r);
            q.method = OptimizerMethod::LevenbergMarquardt;
            q.max_num_iterations = (size_t)r.range(1, c.thorough ? 40 : 15);
            if (r.p(0.3)) q.learning_rate = r.uni(0.2, 2.5); // overshoot
            if (r.p(0.2)) q.max_lambda = q.initial_lambda * r.uni(1, 30); // the bound is reached
            if (sc.g->num_values() < 40 && r.p(0.06)) { // long: slow steps, and on in the rounding noise of the optimum
                q.max_num_iterations = (size_t)r.range(40, 120);
                q.learning_rate = r.p(0.5) ? r.uni(0.03, 0.3) : r.uni(0.3, 1.9);
                q.step_tolerance = r.p(0.5) ? 0 : 1e-14;
                q.residual_tolerance = 0;
                c.count("long-runs");
            }
            if (run == 1) {
                st0 = sc.states();
                start = now();
                if (!std::isfinite(start.cost)) break;
            }
            log.clear();
            seenR.clear();
            seenJ.clear();
            opt.setup(sc.g, q);
            opt.current_stats_.damping_parameter = q.initial_lambda;
            active = true;
            bool escaped = false;
            try {
                opt.optimize();
            } catch (const std::exception&) {
                escaped = true; // the evaluation before the first iteration
            }
            active = false;
            Ev end = now();
            auto ctx = [&]() {
                return str(" lambda ", q.initial_lambda, "..", q.max_lambda, " x", q.lambda_up_factor, "/", q.lambda_down_factor, " rate ", q.learning_rate,
                           " fault ", (int)fault, "@", at, "+", span, " events ", log.size(), " of ", s.describe());
            };
            c.eval();
            c.count("runs");
            // --- reconstruct the iterations from the Jacobian evaluations
            std::vector<size_t> J;
            for (size_t i = 0; i < log.size(); i++)
                if (log[i].jac) J.push_back(i);
            c.check(J.size() <= q.max_num_iterations, "too-many-iterations", str(J.size(), " of ", q.max_num_iterations, ctx()));
            c.check(opt.current_stats_.current_iteration <= (int)q.max_num_iterations, "too-many-iterations-reported", ctx());
            // (before the first trial the statistics still show their default)
            bool tried = false;
            for (size_t i = 0; i < log.size(); i++) {
                tried |= !log[i].jac && J.size() && i > J[0];
                if (tried) c.check(log[i].lambda <= q.max_lambda * (1 + 1e-12) && log[i].lambda > 0, "damping-out-of-bounds", str(log[i].lambda, ctx()));
            }
            double lend = opt.current_stats_.damping_parameter;
            c.check(!tried || (lend <= q.max_lambda * (1 + 1e-12) && lend > 0), "final-damping-out-of-bounds", str(lend, ctx()));
            const L eps = 1e-12L;
            // tolerance of a rolled-back state: the value vector represents a rotation to 1e-8 only when it is tiny
            auto rolled = [&](const Ev& a, const Ev& b) {
                L d = 0;
                for (size_t i = 0; i < a.st.size(); i++) {
                    L t = eps * (1 + (L)a.st[i].v.norm());
                    if (a.st[i].k == POSE || a.st[i].k == ROT) {
                        L th = refLog(a.st[i].R).norm();
                        t += th < 2e-8L ? 3e-8L : std::min<L>(5e-9L, 4e-15L / ((PIL - th) * (PIL - th)));
                    }
                    d = std::max(d, a.st[i].dist(b.st[i]) / t);
                }
                return d <= 1;
            };
            auto acceptable = [&](const Ev& from, const Ev& to) { return to.cost < from.cost * (1 + 1e-12); }; // up to the rounding of the sum
            long accepted = 0, rejected = 0;
            bool misled = false; // the cost of an estimate was disturbed, so the method cannot know better
            for (size_t k = 0; k < J.size(); k++) {
                Ev base = log[J[k]];
                for (size_t i = J[k]; i-- > 0;)
                    if (!log[i].jac && sameBits(log[i].bits, base.bits)) {
                        if (!(log[i].cost == base.cost)) misled = true;
                        base.cost = log[i].cost;
                        break;
                    }
                size_t stop = k + 1 < J.size() ? J[k + 1] : log.size();
                std::vector<const Ev *> trial;
                for (size_t i = J[k] + 1; i < stop; i++)
                    if (!log[i].jac && !rolled(base, log[i])) {
                        if (trial.size() && sameBits(trial.back()->bits, log[i].bits)) continue; // evaluated again
                        trial.push_back(&log[i]);
                    }
                // a later evaluation of the accepted estimate repeats its state; only distinct trial points count
                c.check(trial.size() <= 6, "too-many-trials", str(trial.size(), " trials in iteration ", k, ctx()));
                const Ev& next = k + 1 < J.size() ? log[J[k + 1]] : end;
                if (rolled(base, next)) {
                    rejected += (long)trial.size();
                    // nothing accepted: no trial may have been an improvement beyond rounding
                    for (auto *t : trial)
                        c.check(!(t->cost < base.cost * (1 - 1e-9) - 1e-18) || t->thrown || rolled(*t, base), "improvement-dropped",
                                str(base.cost, " -> ", t->cost, " in iteration ", k, ctx()));
                    continue;
                }
                const Ev *acc = nullptr;
                for (auto *t : trial)
                    if (sameBits(t->bits, next.bits)) acc = t;
                // the same point may be tried twice, a disturbance striking only one of the evaluations
                for (size_t i = J[k] + 1; i < stop; i++)
                    if (!log[i].jac && sameBits(log[i].bits, next.bits) && !log[i].thrown && acceptable(base, log[i])) acc = &log[i];
                if (!c.check(acc != nullptr, "estimate-is-no-trial",
                             str("iteration ", k, ": the next estimate is neither the old one nor a trial; distance to the old one ",
                                 (double)dist(base.st, next.st), ctx())))
                    continue;
                c.check(acceptable(base, *acc), "worse-accepted", str("iteration ", k, ": cost ", base.cost, " -> ", acc->cost, ctx()));
                c.check(!acc->thrown, "thrown-accepted", ctx());
                accepted++;
                rejected += (long)trial.size() - 1;
                // trials rejected before the accepted one
            }
            c.count("accepted", accepted);
            c.count("rejected", rejected);
            if (J.size() > 40) c.count("over-40-iterations");
            if (J.empty()) c.check(rolled(start, end), "moved-without-iteration", ctx());
            else
                c.check(rolled(start, log[J[0]]), "first-estimate", ctx());
            // costs as the problem defines them (the faults are transient disturbances of what is seen)
            if (misled) c.count("estimate's-cost-disturbed");
            else
                c.check(end.cost <= start.cost * (1 + 1e-9) + 1e-18, "ends-worse", str(start.cost, " -> ", end.cost, ctx()));
            for (size_t i = 0; i < sc.vars.size(); i++)
                c.check(sc.vars[i]->value().allFinite(), "not-finite", str(s.vars[i].id, ctx()));
            if (lend >= q.max_lambda * (1 - 1e-12)) c.count("max-lambda-reached");
            if (escaped) c.count("escaped");
            Hash h;
            h.u(s.hash());
            h.u((uint64_t)accepted * 1000 + (uint64_t)rejected);
            h.d(lend);
            c.cover(h.h);
            if (c.want_sample()) c.sample(str("accepted ", accepted, " rejected ", rejected, " cost ", start.cost, " -> ", end.cost, ctx()));
        }
    }
} // namespace vp
