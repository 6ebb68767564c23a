// P11: constant variables never move and take no part as unknowns.
#include "userfac.hpp"
#include "factorama/numerical_jacobian.hpp"

namespace vp
{
    const char *kProperty = "P11";
    long n_cases(bool t) { return t ? 60000 : 7000; }

    // a factor whose constant variables have become part of the measurement: they are not among its variables
    class BakedFactor : public Factor {
    public:
        std::shared_ptr<Factor> in;
        BakedFactor(std::shared_ptr<Factor> f) : in(f) { id_ = f->id(); }
        int residual_size() const override { return in->residual_size(); }
        VectorXd compute_residual() const override { return in->compute_residual(); }
        void compute_residual(Eigen::Ref<VectorXd> out) const override { out = in->compute_residual(); }
        void compute_jacobians(std::vector<MatrixXd>& J) const override
        {
            std::vector<MatrixXd> a;
            in->compute_jacobians(a);
            auto vs = in->variables();
            J.clear();
            for (size_t i = 0; i < vs.size(); i++)
                if (!vs[i]->is_constant()) J.push_back(a[i]);
        }
        std::vector<Variable *> variables() override
        {
            std::vector<Variable *> o;
            for (auto *v : in->variables())
                if (!v->is_constant()) o.push_back(v);
            return o;
        }
        FactorType::FactorTypeEnum type() const override { return FactorType::custom; }
    };

    void run_case(Ctx& c)
    {
        Rng& r = c.rng;
        GenOpt o = genOpt(r);
        o.size = r.range(1, 7);
        largeCase(c, o, 200, 20, 50);
        o.pconst = 0.35;
        o.planes = r.p(0.2);
        o.p2b_local = true;
        o.perturb = r.p(0.5) ? 0.05 : 0.3;
        Problem P = genProblem(r, o);
        Spec& s = P.spec;
        // constants hold any value, not only the true one
        bool moved = false;
        std::vector<int> later; // given their value after the graph was built
        const bool after = r.p(0.5);
        const Spec s0 = s;
        if (r.p(0.5))
            for (size_t vi = 0; vi < s.vars.size(); vi++) {
                auto& v = s.vars[vi];
                if (v.c && r.p(0.5)) {
                    RVar st = initialState(v);
                    VecL d(st.dof());
                    for (int i = 0; i < d.size(); i++)
                        d[i] = 0.05 * r.n();
                    st.plus(d);
                    setInit(v, st);
                    moved = true;
                    if (after) later.push_back((int)vi);
                }
            }
        Scene sc = build(after ? s0 : s);
        if (later.size()) {
            if (r.p(0.5)) {
                try { // with its results at hand, ...
                    sc.g->compute_full_jacobian_and_residual();
                } catch (const std::runtime_error&) {
                }
            }
            for (int i : later) // ... the owner of a constant gives it another value
                sc.vars[i]->set_value_from_vector(initialState(s.vars[i]).toValue().cast<double>());
            sc.spec = s;
            c.count("constant-set-after-build");
        }
        std::vector<int> con;
        for (size_t i = 0; i < s.vars.size(); i++)
            if (s.vars[i].c) con.push_back((int)i);
        auto snap = [&]() {
            std::vector<VectorXd> b;
            for (int i : con)
                b.push_back(varBits(*sc.vars[i]));
            return b;
        };
        const auto first = snap();
        auto still = [&](const std::string& what) {
            auto now = snap();
            for (size_t k = 0; k < con.size(); k++)
                c.check(sameBits(first[k], now[k]), "constant-moved:" + what,
                        str(vkName(s.vars[con[k]].k), " ", s.vars[con[k]].id, s.vars[con[k]].in_graph ? "" : " (outside)", " from ",
                            mstr(first[k].transpose()), " to ", mstr(now[k].transpose()), " ", s.describe()));
            c.count(what);
            c.eval();
        };
        FactorGraph& g = *sc.g;
        // no column for a constant
        int n = 0;
        for (size_t i = 0; i < s.vars.size(); i++)
            if (s.vars[i].in_graph && !s.vars[i].c) n += sc.vars[i]->size();
        c.check(g.num_values() == n, "columns", str(g.num_values(), " for ", n, " ", s.describe()));
        try {
            for (auto& f : sc.g->get_all_factors()) {
                std::vector<MatrixXd> J;
                f->compute_jacobians(J);
                auto vs = f->variables();
                for (size_t i = 0; i < vs.size() && i < J.size(); i++)
                    if (vs[i]->is_constant()) c.check(J[i].size() == 0, "block-of-constant", str("factor ", f->id(), " ", s.describe()));
            }
            c.check(g.compute_full_jacobian_matrix().cols() == n && g.compute_sparse_jacobian_matrix().cols() == n, "jacobian-columns", s.describe());
        } catch (const std::runtime_error&) {
            throw Skip();
        }
        // the same problem with the constants' values moved into the measurements
        Scene bk;
        bk.spec = s;
        bk.g = std::make_shared<FactorGraph>();
        for (auto& v : sc.vars)
            bk.vars.push_back(v->clone());
        for (size_t i = 0; i < s.vars.size(); i++)
            if (!s.vars[i].c && s.vars[i].in_graph) bk.g->add_variable(bk.vars[i]);
        for (auto& f : s.facs)
            bk.g->add_factor(std::make_shared<BakedFactor>(makeFac(f, bk.vars)));
        bk.g->finalize_structure();

        OptimizerSettings q = genSettings(r);
        q.verbose = false;
        q.max_num_iterations = (size_t)r.range(1, 12);
        SparseOptimizer a, b;
        a.setup(sc.g, q);
        b.setup(bk.g, q);
        a.optimize();
        b.optimize();
        still(q.method == OptimizerMethod::GaussNewton ? "optimize-gn" : "optimize-lm");
        // compare where the outcome does not hang on rounding
        auto& sa = a.current_stats_;
        auto& sb = b.current_stats_;
        bool same = sa.status == sb.status && sa.current_iteration == sb.current_iteration;
        bool conv = sa.chi2 < 0.9 * a.initial_stats_.chi2 && std::isfinite(sa.chi2);
        c.check(std::fabs(a.initial_stats_.chi2 - b.initial_stats_.chi2) <= 1e-11 * (1e-10 + std::fabs(a.initial_stats_.chi2)), "baked-initial-cost",
                str(a.initial_stats_.chi2, " baked ", b.initial_stats_.chi2, " ", s.describe()));
        if (con.size() && n && same && conv && refCondition(s, sc.states()) < 1e7L) {
            c.count("compared-with-baked");
            if (moved) c.count("compared-with-baked-moved");
            for (size_t i = 0; i < sc.vars.size(); i++) {
                if (s.vars[i].c) continue;
                RVar x = RVar::of(*sc.vars[i]), y = RVar::of(*bk.vars[i]);
                c.check(x.dist(y) <= 1e-7L * (1 + x.toValue().norm()), "baked-estimate",
                        str(vkName(s.vars[i].k), " ", s.vars[i].id, " differs by ", (double)x.dist(y), " ", s.describe()));
            }
        } else if (con.size() && n && !same && conv && sb.chi2 < 0.9 * b.initial_stats_.chi2) {
            c.count("status-differs");
            // stopped at another iteration by rounding: the costs must still agree to the tolerances in force
            double ca = std::sqrt(sa.chi2), cb = std::sqrt(sb.chi2);
            c.check(std::fabs(ca - cb) <= 1e-6 * (1 + ca) + 10 * q.residual_tolerance + 1e-2 * std::sqrt(a.initial_stats_.chi2), "baked-cost",
                    str(ca, " baked ", cb, " ", s.describe()));
        }
        // covariances refer to the free variables only
        a.prepare_to_estimate_covariances();
        b.prepare_to_estimate_covariances();
        for (size_t i = 0; i < sc.vars.size(); i++) {
            bool va = true, vb = true;
            MatrixXd ca = a.estimate_covariance(sc.vars[i].get(), va);
            if (s.vars[i].c) {
                c.check(!va, "covariance-of-constant", str(s.vars[i].id, " ", s.describe()));
                c.count("covariance-refused");
            } else if (same && conv) {
                MatrixXd cb = b.estimate_covariance(bk.vars[i].get(), vb);
                if (va && vb && refCondition(s, sc.states()) < 1e6L) {
                    c.check((ca - cb).norm() <= 1e-5 * (1e-12 + ca.norm()), "baked-covariance", str(mstr(ca), " baked ", mstr(cb), " ", s.describe()));
                    c.count("covariance-compared");
                }
            }
        }
        still("covariance");
        // a history of everything else that works on variables
        for (int t = r.range(3, 10); t > 0; t--) {
            switch (r.range(0, 6)) {
            case 0: {
                VectorXd d(g.num_values());
                for (int i = 0; i < d.size(); i++)
                    d[i] = 0.05 * r.n();
                g.apply_increment(d);
                still("increment");
                break;
            }
            case 1: {
                VectorXd x = g.get_variable_vector();
                c.check(x.size() == n, "vector-size", s.describe());
                for (int i = 0; i < x.size(); i++)
                    x[i] += 0.01 * r.n();
                g.set_variable_values_from_vector(x);
                still("vector-write");
                break;
            }
            case 2: {
                if (sc.facs.empty()) break;
                std::vector<MatrixXd> J;
                auto& f = r.pick(sc.facs);
                try {
                    ComputeNumericalJacobians(*f, J, r.logu(1e-7, 1e-4));
                } catch (const std::runtime_error&) {
                }
                auto vs = f->variables();
                for (size_t i = 0; i < vs.size() && i < J.size(); i++)
                    if (vs[i]->is_constant()) c.check(J[i].size() == 0, "numerical-block-of-constant", str("factor ", f->id()));
                still("numerical-jacobian");
                break;
            }
            case 3:
                try {
                    g.detailed_factor_test(1e-2, false);
                } catch (const std::runtime_error&) {
                }
                still("self-test");
                break;
            case 4: { // a throwing or failing optimization
                auto f2 = std::make_shared<FactorGraph>();
                for (auto& v : g.get_all_variables())
                    f2->add_variable(v);
                long at = r.range(2, 12);
                for (auto& f : sc.facs) {
                    auto w = std::make_shared<FaultFactor>(f);
                    auto *wp = w.get();
                    int kind = r.range(0, 2);
                    w->onRes = [wp, at, kind](VectorXd& x) {
                        if (wp->nres < at) return;
                        if (kind == 0) throw std::runtime_error("injected");
                        x[0] = kind == 1 ? std::nan("") : 1e300;
                    };
                    f2->add_factor(w);
                }
                f2->finalize_structure();
                OptimizerSettings z = genSettings(r);
                z.verbose = false;
                SparseOptimizer x;
                x.setup(f2, z);
                try {
                    x.optimize();
                } catch (const std::runtime_error&) {
                }
                still("faulty-optimize");
                for (auto& v : sc.vars) // leave the graph usable
                    if (!v->value().allFinite()) throw Skip();
                break;
            }
            default: {
                OptimizerSettings z = genSettings(r);
                z.verbose = false;
                z.max_num_iterations = (size_t)r.range(1, 6);
                a.setup(sc.g, z);
                try {
                    a.optimize();
                } catch (const std::runtime_error&) {
                }
                still(z.method == OptimizerMethod::GaussNewton ? "optimize-gn" : "optimize-lm");
                for (auto& v : sc.vars)
                    if (!v->value().allFinite()) throw Skip();
            }
            }
        }
        Hash h;
        h.u(s.hash());
        h.d(sa.chi2);
        c.cover(h.h);
        if (c.want_sample()) c.sample(s.describe());
    }
} // namespace vp
