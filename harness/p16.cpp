// P16: unsolvable or faulty problems end in honest failure, and the same objects work once the cause is gone.
#include "userfac.hpp"

namespace vp
{
    bool inDomain(const FacSpec& f, const std::vector<RVar>& st); // gen.cpp
    const char *kProperty = "P16";
    long n_cases(bool t) { return t ? 120000 : 16000; }

    static OptimizerSettings cleanSettings(Rng& r, int method)
    {
        OptimizerSettings q;
        q.method = method ? OptimizerMethod::LevenbergMarquardt : OptimizerMethod::GaussNewton;
        q.max_num_iterations = (size_t)r.range(12, 60);
        q.step_tolerance = r.logu(1e-12, 1e-8);
        q.residual_tolerance = r.p(0.5) ? 0 : 1e-14;
        q.initial_lambda = r.logu(1e-6, 1e-1);
        q.max_lambda = 1e8;
        q.verbose = r.p(0.05);
        return q;
    }
    static void restore(Scene& sc, const std::vector<RVar>& st)
    {
        for (size_t i = 0; i < sc.vars.size(); i++)
            if (!sc.vars[i]->is_constant()) sc.vars[i]->set_value_from_vector(st[i].toValue());
    }
    // the same problem from nothing
    static void compareFresh(Ctx& c, Scene& sc, SparseOptimizer& opt, const OptimizerSettings& q, const char *what, bool reuse)
    {
        auto st = sc.states();
        Spec s2 = sc.spec;
        for (size_t i = 0; i < st.size(); i++)
            if (!s2.vars[i].c) setInit(s2.vars[i], st[i]);
        for (auto& f : s2.facs)
            if (!inDomain(f, st)) return;
        Scene fr = build(s2);
        for (size_t i = 0; i < st.size(); i++)
            if (!s2.vars[i].c) fr.vars[i]->set_value_from_vector(sc.vars[i]->value());
        SparseOptimizer of;
        of.setup(fr.g, q);
        of.optimize();
        if (!reuse) opt.setup(sc.g, q);
        opt.optimize();
        auto a = sc.states(), b = fr.states();
        L d = 0;
        for (size_t i = 0; i < a.size(); i++)
            d = std::max(d, a[i].dist(b[i]) / (1 + (L)a[i].v.norm()));
        auto ctx = [&]() {
            return str(what, " status ", (int)opt.current_stats_.status, "/", (int)of.current_stats_.status, " cost ", opt.current_stats_.chi2, "/", of.current_stats_.chi2, " off ",
                       (double)d, " of ", s2.describe());
        };
        bool good = of.current_stats_.status == OptimizerStatus::SUCCESS && of.current_stats_.valid;
        if (!good) return; // (covered by P15 where it must succeed)
        c.count(str("recovered:", what));
        c.check(opt.current_stats_.status == OptimizerStatus::SUCCESS && opt.current_stats_.valid, "no-recovery", ctx());
        c.check(d < 1e-6L, "recovery-differs", ctx());
    }

    // ---- problems whose unknowns are not determined
    static void undetermined(Ctx& c)
    {
        Rng& r = c.rng;
        GenOpt o = genOpt(r);
        o.size = r.range(1, 6);
        o.p2b_local = false;
        o.planes = o.fam == F_3D && r.p(0.3);
        o.sig_lo = 0.3;
        o.sig_hi = 2;
        o.pos_scale = r.uni(1, 3);
        o.noise = r.p(0.5) ? 0 : 0.3;
        Problem P = genProblem(r, o);
        Spec s = P.spec;
        // take factors away, and put harmless ones in so that the counts still fit
        std::vector<FacSpec> gone;
        int drop = r.range(0, 3);
        int how = r.range(0, 2);
        for (int k = 0; k < (how == 1 ? 1000 : drop); k++) {
            std::vector<size_t> cand;
            for (size_t i = 0; i < s.facs.size(); i++) {
                FK fk = s.facs[i].k;
                bool prior = fk == GP || fk == PPP || fk == POP || fk == RP || fk == P2P || fk == PLP;
                if (how == 0 || prior) cand.push_back(i);
            }
            if (cand.empty()) break;
            size_t i = cand[r.u64() % cand.size()];
            gone.push_back(s.facs[i]);
            s.facs.erase(s.facs.begin() + (long)i);
        }
        auto st = initialStates(s);
        int fid = 800000000;
        {
            // an extra, well observed variable supplies residual rows
            Layout l = layout(s, st);
            int k = r.range(1, 3);
            VarSpec v;
            v.k = GEN;
            v.id = 700000001;
            v.init = VectorXd::Constant(k, r.n());
            s.vars.push_back(v);
            st = initialStates(s);
            for (int need = l.n + k - l.m + r.range(0, 3); need > 0; need -= k) {
                FacSpec f;
                f.k = GP;
                f.id = fid++;
                f.v = {(int)s.vars.size() - 1};
                f.p = VectorXd::Constant(k, r.n());
                f.s1 = 1;
                s.facs.push_back(f);
            }
            if (layout(s, st).m < layout(s, st).n) throw Skip();
        }
        for (auto& f : s.facs)
            if (!inDomain(f, st)) throw Skip();
        // judged by the reference: a null space, and everything else well determined
        MatL J = refJacobian(s, st);
        if (J.cols() < 1) throw Skip();
        MatL H = J.transpose() * J;
        Eigen::SelfAdjointEigenSolver<MatrixXd> es(H.cast<double>());
        double hi = es.eigenvalues().maxCoeff();
        int nul = 0;
        for (int i = 0; i < H.cols(); i++) {
            double e = std::fabs(es.eigenvalues()[i]) / hi;
            if (e < 1e-14) nul++;
            else if (e < 1e-4) throw Skip();
        }
        if (!nul) throw Skip();
        int method = r.p(0.35);
        OptimizerSettings q = cleanSettings(r, method);
        Scene sc = build(s);
        SparseOptimizer opt;
        opt.setup(sc.g, q);
        VectorXd before = sc.bits();
        double c0 = sc.g->compute_full_residual_vector().squaredNorm();
        opt.optimize();
        auto& b = opt.current_stats_;
        auto ctx = [&]() {
            return str(" status ", (int)b.status, " valid ", b.valid, " iterations ", b.current_iteration, " null space ", nul, " of ", H.cols(), " cost ", c0, " -> ", b.chi2, " of ",
                       s.describe());
        };
        c.eval();
        c.count(method ? "undetermined-lm" : "undetermined-gn");
        if (!method) {
            c.check(b.status == OptimizerStatus::SINGULAR_HESSIAN || b.status == OptimizerStatus::ILL_CONDITIONED || b.status == OptimizerStatus::FAILED,
                    "undetermined-not-reported", ctx());
            c.check(!b.valid, "undetermined-but-valid", ctx());
            c.check(sameBits(before, sc.bits()), "undetermined-moved-variables", ctx());
            c.count(str("status:", (int)b.status));
        } else {
            c.check(finite(sc), "lm-not-finite", ctx());
            double c1 = sc.g->compute_full_residual_vector().squaredNorm();
            c.check(c1 <= c0 * (1 + 1e-9), "lm-worse", ctx());
            c.check(b.current_iteration <= (int)q.max_num_iterations, "lm-unbounded", ctx());
        }
        // no covariance out of a singular problem is taken for valid where it cannot be
        // the cause removed: the missing factors are added
        bool closes = true;
        if (sc.vars.size() && r.p(0.7)) {
            for (auto& f : gone) {
                f.id = fid++;
                sc.facs.push_back(makeFac(f, sc.vars));
                sc.g->add_factor(sc.facs.back());
                sc.spec.facs.push_back(f);
            }
            auto z = sc.states();
            for (auto& f : sc.spec.facs)
                closes &= inDomain(f, z);
            if (!closes || refCondition(sc.spec, z) > 1e7L) return;
            sc.g->finalize_structure();
            OptimizerSettings q2 = cleanSettings(r, r.p(0.5));
            compareFresh(c, sc, opt, q2, "undetermined", false);
        }
        Hash h;
        h.u(s.hash());
        h.u((uint64_t)method);
        c.cover(h.h);
        if (c.want_sample()) c.sample(ctx());
    }

    // ---- faults during the run
    static void faulty(Ctx& c)
    {
        Rng& r = c.rng;
        GenOpt o = genOpt(r);
        o.size = r.range(1, 6);
        o.p2b_local = false;
        o.noise = r.p(0.3) ? 0 : r.logu(0.05, 2);
        o.perturb = r.logu(0.02, 0.3);
        Spec s = genProblem(r, o).spec;
        Scene sc;
        sc.spec = s;
        sc.g = std::make_shared<FactorGraph>();
        for (auto& v : s.vars)
            sc.vars.push_back(makeVar(v));
        for (size_t i = 0; i < s.vars.size(); i++)
            if (s.vars[i].in_graph) sc.g->add_variable(sc.vars[i]);
        enum { RES_THROW, RES_NAN, RES_INF, JAC_THROW, JAC_NAN, JAC_INF };
        static const char *name[] = {"residual-throw", "residual-nan", "residual-inf", "jacobian-throw", "jacobian-nan", "jacobian-inf"};
        int kind = (int)((uint64_t)c.idx / 2 % 6);
        std::vector<size_t> cand;
        for (size_t k = 0; k < s.facs.size(); k++)
            for (int vi : s.facs[k].v)
                if (!s.vars[vi].c && s.vars[vi].in_graph) {
                    cand.push_back(k);
                    break;
                }
        if (cand.empty()) throw Skip();
        size_t victim = cand[r.u64() % cand.size()];
        bool active = false, fired = false, firedBase = false;
        long nr = 0, nj = 0, after = 0;
        int method = r.p(0.5);
        long at = r.range(0, kind >= JAC_THROW ? 3 : 5);
        bool persist = r.p(0.5);
        uint64_t what = r.u64();
        // Levenberg-Marquardt: trial evaluations cannot be told from outside; a persistent fault reaches the base evaluation
        for (size_t k = 0; k < s.facs.size(); k++) {
            auto w = std::make_shared<FaultFactor>(makeFac(s.facs[k], sc.vars));
            w->onRes = [&, k](VectorXd& x) {
                if (!active || k != victim) return;
                long n = nr++;
                if (fired) after++;
                if (kind > RES_INF || !(n == at || (persist && n > at))) return;
                fired = true;
                firedBase |= n == 0;
                if (kind == RES_THROW) throwSome(what);
                int i = (int)(c.rng.u64() % (uint64_t)x.size());
                x[i] = kind == RES_NAN ? std::nan("") : (c.rng.p(0.5) ? 1 : -1) * INFINITY;
            };
            w->onJac = [&, k](std::vector<MatrixXd>& J) {
                if (!active || k != victim) return;
                long n = nj++;
                if (kind < JAC_THROW || !(n == at || (persist && n > at))) return;
                fired = true;
                if (kind == JAC_THROW) throwSome(what);
                for (auto& m : J)
                    if (m.size()) {
                        int i = (int)(c.rng.u64() % (uint64_t)m.rows()), j = (int)(c.rng.u64() % (uint64_t)m.cols());
                        m(i, j) = kind == JAC_NAN ? std::nan("") : INFINITY;
                        break;
                    }
            };
            sc.facs.push_back(w);
            sc.g->add_factor(w);
        }
        sc.g->finalize_structure();
        auto st0 = sc.states();
        OptimizerSettings q = cleanSettings(r, method);
        SparseOptimizer opt;
        if (r.p(0.3)) { // an optimizer that has been used before
            opt.setup(sc.g, q);
            opt.optimize();
            restore(sc, st0);
        }
        opt.setup(sc.g, q);
        double c0 = sc.g->compute_full_residual_vector().squaredNorm();
        active = true;
        bool escaped = false;
        try {
            opt.optimize();
        } catch (const std::exception&) {
            escaped = true;
        }
        active = false;
        auto& b = opt.current_stats_;
        auto ctx = [&]() {
            return str(name[kind], " at ", at, persist ? " and later " : " ", method ? "LM" : "GN", " victim ", s.facs[victim].id, " status ", (int)b.status, " valid ", b.valid,
                       " iterations ", b.current_iteration, " cost ", c0, " -> ", b.chi2, " evaluations ", nr, "/", nj, " of ", s.describe());
        };
        if (!fired) throw Skip(); // converged before the fault
        c.eval();
        c.count(str(name[kind], method ? ":LM" : ":GN"));
        if (escaped) {
            // before the first iteration there is nothing to report a status about
            c.check(kind == RES_THROW && at == 0, "exception-escaped", ctx());
            c.count("thrown-before-first-iteration");
        } else {
            c.check(!(kind == RES_THROW && at == 0), "swallowed-before-start", ctx());
            bool failed = b.status != OptimizerStatus::SUCCESS && b.status != OptimizerStatus::RUNNING && !b.valid;
            // a single bad value before the first iteration is gone by then
            if (at == 0 && !persist && (kind == RES_NAN || kind == RES_INF)) c.count("gone-before-first-iteration");
            else {
            bool rejectedTrial = method && (kind == RES_NAN || kind == RES_INF) && at > 0; // may have hit a trial only
            if (!rejectedTrial) c.check(failed, str("fault-not-reported:", name[kind], method ? ":LM" : ":GN"), ctx());
            }
            c.check(b.status != OptimizerStatus::RUNNING, "still-running", ctx());
            // bounded: the fault ends the run, or is rejected a handful of times per iteration
            c.check(nr <= 2 + 8 * (long)q.max_num_iterations && nj <= 1 + (long)q.max_num_iterations, "unbounded-work", ctx());
            if (failed && !method && kind != RES_THROW) c.check(after <= 2, "went-on-after-fault", str(after, ctx()));
        }
        c.check(finite(sc), "estimates-not-finite", ctx());
        if (method && finite(sc)) {
            double c1 = sc.g->compute_full_residual_vector().squaredNorm();
            c.check(c1 <= c0 * (1 + 1e-9) + 1e-15, "lm-worse", ctx());
        }
        // the cause removed
        restore(sc, st0);
        bool reuse = r.p(0.5); // without another setup()
        compareFresh(c, sc, opt, q, name[kind], reuse);
        Hash h;
        h.u(s.hash());
        h.u((uint64_t)kind);
        h.u((uint64_t)at);
        c.cover(h.h);
        if (c.want_sample()) c.sample(ctx());
    }

    void run_case(Ctx& c)
    {
        if (c.idx % 2) undetermined(c);
        else faulty(c);
    }
} // namespace vp
