// P08: a changed graph must be re-finalized, and re-finalizing equals building afresh.
#include "model.hpp"

namespace vp
{
    const char *kProperty = "P08";
    long n_cases(bool t) { return t ? 90000 : 9000; }

    struct World {
        Ctx& c;
        Rng& r;
        Spec s; // everything that may ever be added
        std::shared_ptr<FactorGraph> g = std::make_shared<FactorGraph>();
        std::vector<std::shared_ptr<Variable>> vars;
        std::vector<int> va, fa; // order of addition
        std::vector<char> vin, fin;
        enum { NEVER, DIRTY, FAILED, OK } st = NEVER;
        std::vector<bool> atFin; // constant flags at the last finalize
        bool flags = false; // constant flags changed since the last finalize
        std::string log;
        SparseOptimizer opt; // one optimizer over the whole history
        World(Ctx& c_) : c(c_), r(c_.rng) {}
        void note(const std::string& x)
        {
            log += x + " ";
            if (log.size() > 900) log = "..." + log.substr(log.size() - 800);
        }
        template <class F> bool refuses(F f)
        {
            try {
                f();
            } catch (const std::exception&) {
                return true;
            }
            return false;
        }
        void addVar(int i)
        {
            g->add_variable(vars[i]);
            va.push_back(i);
            vin[i] = 1;
            if (st == OK) st = DIRTY;
            note(str("+v", s.vars[i].id));
        }
        void addFac(int i)
        {
            g->add_factor(makeFac(s.facs[i], vars));
            fa.push_back(i);
            fin[i] = 1;
            if (st == OK) st = DIRTY;
            note(str("+f", s.facs[i].id));
        }
        // can this graph be finalized?
        bool finalizable(std::string& why)
        {
            int n = 0, m = 0;
            for (int i : va)
                if (!vars[i]->is_constant()) n += vars[i]->size();
            std::vector<RVar> all;
            for (auto& v : vars)
                all.push_back(RVar::of(*v));
            for (int i : fa) {
                m += s.facs[i].rdim(all);
                for (int v : s.facs[i].v)
                    if (!vars[v]->is_constant() && !vin[v]) {
                        why = "missing free variable";
                        return false;
                    }
                auto& n = s.facs[i].v;
                for (size_t a = 0; a < n.size(); a++)
                    for (size_t b = 0; b < a; b++)
                        if (n[a] == n[b] && !vars[n[a]]->is_constant()) {
                            why = "free variable named twice";
                            return false;
                        }
            }
            if (m < n) why = "fewer residuals than unknowns";
            return m >= n;
        }
        void expectRefused(const char *state)
        {
            VectorXd before = bits();
            struct {
                const char *n;
                std::function<void()> f;
            } calls[] = {
                {"residual", [&] { g->compute_full_residual_vector(); }},
                {"residual-into", [&] { VectorXd x; g->compute_full_residual_vector(x); }},
                {"dense", [&] { g->compute_full_jacobian_matrix(); }},
                {"sparse", [&] { g->compute_sparse_jacobian_matrix(); }},
                {"both", [&] { g->compute_full_jacobian_and_residual(); }},
                {"increment", [&] { g->apply_increment(VectorXd::Zero(g->num_values())); }},
                {"self-test", [&] { g->detailed_factor_test(1e-2); }},
                {"print", [&] { g->print_jacobian_and_residual(); }},
                {"optimize", [&] {
                     SparseOptimizer o;
                     OptimizerSettings q;
                     q.method = r.p(0.5) ? OptimizerMethod::GaussNewton : OptimizerMethod::LevenbergMarquardt;
                     o.setup(g, q);
                     o.optimize();
                 }},
            };
            for (auto& x : calls) {
                if (!r.p(0.5)) continue;
                c.check(refuses(x.f), str(state, ":answers-", x.n), "not refused after " + log);
                c.eval();
                c.count(str("refused-", state));
            }
            c.check(sameBits(before, bits()), str(state, ":changed-variables"), log);
        }
        // constant flags of members differ from those the structure was made for
        void expectRefusedForFlags()
        {
            bool differ = false;
            int freed = 0;
            for (int i : va)
                if (vars[i]->is_constant() != atFin[i]) {
                    differ = true;
                    freed += !vars[i]->is_constant();
                }
            if (!differ) return;
            int now = 0;
            for (int i : va)
                if (!vars[i]->is_constant()) now += vars[i]->size();
            auto noise = [&](int n) {
                VectorXd x(n);
                for (int i = 0; i < n; i++)
                    x[i] = r.n();
                return x;
            };
            VectorXd before = bits();
            const int was = g->num_values();
            struct {
                const char *n;
                std::function<void()> f;
            } calls[] = {
                {"dense", [&] { g->compute_full_jacobian_matrix(); }},
                {"sparse", [&] { g->compute_sparse_jacobian_matrix(); }},
                {"both", [&] { g->compute_full_jacobian_and_residual(); }},
                {"increment", [&] { g->apply_increment(noise(was)); }},
                {"increment-of-new-size", [&] { g->apply_increment(noise(now)); }},
                {"print", [&] { g->print_jacobian_and_residual(); }},
            };
            for (auto& x : calls) {
                if (!r.p(0.5)) continue;
                c.check(refuses(x.f), str("flags:answers-", x.n), str("not refused after ", log));
                c.eval();
                c.count(freed ? "refused-freed" : "refused-frozen");
                if (!c.check(sameBits(before, bits()), str("flags:changed-variables-", x.n), log)) return;
            }
            if (was > 0 && now > 0 && r.p(0.4)) {
                SparseOptimizer o;
                OptimizerSettings q;
                q.method = r.p(0.5) ? OptimizerMethod::GaussNewton : OptimizerMethod::LevenbergMarquardt;
                q.max_num_iterations = 3;
                o.setup(g, q);
                o.optimize();
                c.check(o.current_stats_.status != OptimizerStatus::SUCCESS && sameBits(before, bits()), "flags:optimized", log);
                c.count("refused-optimizer");
            }
        }
        VectorXd bits()
        {
            std::vector<double> o;
            for (auto& v : vars) {
                VectorXd b = varBits(*v);
                o.insert(o.end(), b.data(), b.data() + b.size());
            }
            return Eigen::Map<VectorXd>(o.data(), (long)o.size());
        }
        void finalize()
        {
            std::string why;
            bool can = finalizable(why);
            bool thrown = refuses([&] { g->finalize_structure(); });
            note(can ? "finalize" : "finalize!");
            c.eval();
            c.check(thrown == !can, can ? "finalize:refused" : "finalize:accepted", (can ? "throws after " : why + " accepted after ") + log);
            // results stored for an earlier structure are not offered as valid ones (of the present one they may be)
            auto offered = [&](const char *what, auto get, auto now) {
                MatrixXd a, b;
                try {
                    a = MatrixXd(get());
                } catch (const std::runtime_error&) {
                    c.count("stored-result-withdrawn");
                    return;
                }
                if (thrown) {
                    c.viol(str("finalize:offers-old-", what), "after a failed finalize " + log);
                    return;
                }
                FactorGraph same = *g;
                try {
                    b = MatrixXd(now(same));
                } catch (const std::runtime_error&) {
                    return;
                }
                c.check(a.rows() == b.rows() && a.cols() == b.cols() && (a - b).norm() <= 1e-9 * (1 + b.norm()), str("finalize:offers-old-", what), mstr(a) + " not " + mstr(b) + " " + log);
            };
            offered("residual", [&] { return g->residual(); }, [](FactorGraph& x) { return x.compute_full_residual_vector(); });
            offered("jacobian", [&] { return g->jacobian(); }, [](FactorGraph& x) { return x.compute_full_jacobian_matrix(); });
            offered("sparse-jacobian", [&] { return g->sparse_jacobian(); }, [](FactorGraph& x) { return x.compute_sparse_jacobian_matrix(); });
            if (g->residual_valid() || g->jacobian_valid()) {
                bool t = false;
                try {
                    if (g->residual_valid()) g->residual();
                    if (g->jacobian_valid()) g->jacobian();
                } catch (const std::runtime_error&) {
                    t = true;
                }
                c.check(!t, "finalize:valid-but-refused", log);
            }
            if (thrown) {
                st = FAILED;
                c.count("finalize-fails:" + why);
                return;
            }
            st = OK;
            flags = false;
            atFin.clear();
            for (auto& v : vars)
                atFin.push_back(v->is_constant());
            c.count("finalize-ok");
        }
        // a graph built from nothing with the present content
        void compareFresh(bool optimize)
        {
            FactorGraph fresh;
            std::vector<std::shared_ptr<Variable>> cv;
            for (auto& v : vars)
                cv.push_back(v->clone());
            for (int i : va)
                fresh.add_variable(cv[i]);
            for (int i : fa)
                fresh.add_factor(makeFac(s.facs[i], cv));
            fresh.finalize_structure();
            c.eval();
            c.count("compared-with-fresh");
            c.check(fresh.num_values() == g->num_values() && fresh.num_residuals() == g->num_residuals() &&
                        fresh.num_variables() == g->num_variables(),
                    "fresh:dimensions", str(g->num_residuals(), "x", g->num_values(), " fresh ", fresh.num_residuals(), "x", fresh.num_values(), " ", log));
            auto close = [](const MatrixXd& a, const MatrixXd& b) {
                return a.rows() == b.rows() && a.cols() == b.cols() &&
                       (a.size() == 0 || (a - b).cwiseAbs().maxCoeff() <= 1e-12 * (1 + b.cwiseAbs().maxCoeff()));
            };
            // in a random order of evaluation
            std::vector<int> ord = {0, 1, 2, 2};
            r.shuffle(ord);
            for (int k : ord) {
                if (k == 0) c.check(close(g->compute_full_residual_vector(), fresh.compute_full_residual_vector()), "fresh:residual", log);
                if (k == 1) {
                    MatrixXd a = g->compute_full_jacobian_matrix(), b = fresh.compute_full_jacobian_matrix();
                    c.check(close(a, b), "fresh:dense", str(mstr(a), " fresh ", mstr(b), " ", log));
                }
                if (k == 2) {
                    MatrixXd a = MatrixXd(g->compute_sparse_jacobian_matrix()), b = MatrixXd(fresh.compute_sparse_jacobian_matrix());
                    c.check(close(a, b), "fresh:sparse", str(mstr(a), " fresh ", mstr(b), " ", log));
                }
            }
            for (int i : va) {
                bool x, y;
                auto p = g->variable_placement(s.vars[i].id, x), q = fresh.variable_placement(s.vars[i].id, y);
                c.check(x == y && (!x || (p.index == q.index && p.dim == q.dim)), "fresh:variable-placement", log);
            }
            for (int i : fa) {
                bool x, y;
                auto p = g->factor_placement(s.facs[i].id, x), q = fresh.factor_placement(s.facs[i].id, y);
                c.check(x == y && (!x || (p.residual_index == q.residual_index && p.residual_dim == q.residual_dim &&
                                          p.variable_column_indices == q.variable_column_indices && p.variable_dims == q.variable_dims)),
                        "fresh:factor-placement", log);
            }
            if (!optimize) return;
            OptimizerSettings q;
            q.method = r.p(0.5) ? OptimizerMethod::GaussNewton : OptimizerMethod::LevenbergMarquardt;
            q.max_num_iterations = (size_t)r.range(1, 8);
            auto keep = std::make_shared<FactorGraph>(std::move(fresh));
            SparseOptimizer b;
            opt.setup(g, q);
            b.setup(keep, q);
            opt.optimize();
            b.optimize();
            note("optimize");
            c.count("optimized-both");
            auto &sa = opt.current_stats_, &sb = b.current_stats_;
            c.check(sa.status == sb.status && sa.valid == sb.valid && sa.current_iteration == sb.current_iteration, "fresh:optimize-status",
                    str("status ", (int)sa.status, " fresh ", (int)sb.status, " iterations ", sa.current_iteration, " fresh ", sb.current_iteration, " ", log));
            c.check(std::fabs(sa.chi2 - sb.chi2) <= 1e-9 * (1 + std::fabs(sb.chi2)) || (std::isnan(sa.chi2) && std::isnan(sb.chi2)), "fresh:optimize-cost",
                    str(sa.chi2, " fresh ", sb.chi2, " ", log));
            for (size_t i = 0; i < vars.size(); i++) {
                L d = RVar::of(*vars[i]).dist(RVar::of(*cv[i])), m = vars[i]->value().norm();
                c.check(d <= 1e-8L * (1 + m) || !(d == d), "fresh:optimize-values", str("variable ", i, " differs by ", (double)d, " ", log));
            }
        }
    };

    void run_case(Ctx& c)
    {
        Rng& r = c.rng;
        World w(c);
        GenOpt o = genOpt(r);
        o.size = r.range(1, 6);
        o.p2b_local = true;
        o.planes = false;
        largeCase(c, o, 100, 20, 60, false);
        w.s = genProblem(r, o).spec;
        Spec& s = w.s;
        // factors that cannot be placed: on another object than the one the graph has under that id, or twice on one
        auto odd = [&](bool twice) {
            int i = r.range(0, (int)s.vars.size() - 1), id = 0;
            const VK k = s.vars[i].k;
            if (!s.vars[i].in_graph || (k != LM && k != GEN)) return;
            for (auto& f : s.facs)
                id = std::max(id, f.id);
            if (id > 2000000000) return;
            FacSpec f;
            f.id = id + 1;
            VarSpec other = s.vars[i];
            other.in_graph = false;
            if (twice) {
                int j = -1;
                for (auto& v : s.vars)
                    j = std::max(j, v.id);
                if (j > 2000000000) return;
                other.id = j + 1;
                other.c = true;
                f.k = GB;
                f.v = {i, i, (int)s.vars.size()};
                if (r.p(0.3)) f.v[2] = r.pick(f.v); // the measured difference itself again
            } else {
                f.k = GP;
                f.v = {(int)s.vars.size()};
                f.p = other.init;
            }
            s.vars.push_back(other);
            s.facs.push_back(f);
            c.count(twice ? "odd:twice" : "odd:same-id");
        };
        if (r.p(0.2)) odd(false);
        if (r.p(0.2)) odd(true);
        for (auto& v : s.vars)
            w.vars.push_back(makeVar(v));
        w.vin.assign(s.vars.size(), 0);
        w.fin.assign(s.facs.size(), 0);
        w.expectRefused("never-finalized");
        // a first part, then growth
        std::vector<int> vo, fo;
        for (size_t i = 0; i < s.vars.size(); i++)
            if (s.vars[i].in_graph) vo.push_back((int)i);
        for (size_t i = 0; i < s.facs.size(); i++)
            fo.push_back((int)i);
        if (r.p(0.5)) {
            r.shuffle(vo);
            r.shuffle(fo);
        }
        size_t iv = 0, jf = 0;
        const int steps = r.range(12, c.thorough ? 80 : 36);
        for (int t = 0; t < steps; t++) {
            int op = r.range(0, 9);
            if (op <= 1 && iv < vo.size()) {
                for (int k = r.range(1, 3); k > 0 && iv < vo.size(); k--)
                    w.addVar(vo[iv++]);
            } else if (op <= 3 && jf < fo.size()) {
                for (int k = r.range(1, 4); k > 0 && jf < fo.size(); k--)
                    w.addFac(fo[jf++]);
            } else if (op == 4) { // duplicates are refused and leave a finalized graph as it is
                if (w.va.size()) c.check(w.refuses([&] { w.g->add_variable(w.vars[r.pick(w.va)]->clone()); }), "duplicate-variable", w.log);
                if (w.fa.size()) c.check(w.refuses([&] { w.g->add_factor(makeFac(s.facs[r.pick(w.fa)], w.vars)); }), "duplicate-factor", w.log);
                if (w.st == World::OK && !w.flags) c.check(!w.refuses([&] { w.g->compute_full_residual_vector(); }), "duplicate-breaks-graph", w.log);
            } else if (op == 5) { // change constancy; it takes effect with the next finalize
                int i = r.range(0, (int)w.vars.size() - 1);
                w.vars[i]->set_constant(!w.vars[i]->is_constant());
                w.flags = true;
                w.note(str("flag", s.vars[i].id));
            } else if (op == 6) { // values may change at any time
                auto& v = w.vars[r.range(0, (int)w.vars.size() - 1)];
                VectorXd d(v->size());
                for (int i = 0; i < d.size(); i++)
                    d[i] = 0.02 * r.n();
                v->apply_increment(d);
            } else {
                if (w.st == World::DIRTY && r.p(0.6)) w.expectRefused("changed");
                if (w.st == World::FAILED && r.p(0.8)) w.expectRefused("failed-finalize");
                if (w.st == World::OK && w.flags && r.p(0.7)) w.expectRefusedForFlags();
                w.finalize();
                if (w.st == World::FAILED) {
                    if (r.p(0.7)) w.expectRefused("failed-finalize");
                    // correct the cause
                    if (r.p(0.6)) {
                        for (int i : w.fa)
                            for (int v : s.facs[i].v)
                                if (!w.vars[v]->is_constant() && !w.vin[v]) {
                                    if (s.vars[v].in_graph && r.p(0.7)) {
                                        w.addVar(v);
                                        for (size_t q = iv; q < vo.size(); q++)
                                            if (vo[q] == v) vo.erase(vo.begin() + (long)q);
                                    } else
                                        w.vars[v]->set_constant(true);
                                }
                        for (int i : w.fa) {
                            auto& n = s.facs[i].v;
                            for (size_t a = 0; a < n.size(); a++)
                                for (size_t b = 0; b < a; b++)
                                    if (n[a] == n[b]) w.vars[n[a]]->set_constant(true);
                        }
                        std::string why;
                        while (jf < fo.size() && !w.finalizable(why) && why[0] == 'f') {
                            bool ok = true;
                            for (int v : s.facs[fo[jf]].v)
                                ok &= w.vin[v] || w.vars[v]->is_constant();
                            if (!ok) break;
                            w.addFac(fo[jf++]);
                        }
                        if (!w.finalizable(why))
                            for (int i : w.va)
                                w.vars[i]->set_constant(true);
                        w.note("corrected");
                        w.finalize();
                        c.check(w.st == World::OK, "no-recovery", w.log);
                    }
                }
                try {
                    if (w.st == World::OK) w.compareFresh(r.p(0.4));
                } catch (const std::runtime_error& e) {
                    // a factor refuses the present values: both graphs must say so
                    if (std::string(e.what()).find("close") == std::string::npos) throw;
                }
            }
            Hash h;
            h.u(s.hash());
            h.u((uint64_t)w.st);
            h.u(w.va.size() * 1000 + w.fa.size());
            h.u((uint64_t)w.flags);
            c.cover(h.h);
        }
        if (c.want_sample()) c.sample(w.log);
    }
} // namespace vp
