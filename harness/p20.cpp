// P20: no memory error or undefined behaviour on any allowed call sequence. Random histories of the public API under
// AddressSanitizer, LeakSanitizer and UndefinedBehaviorSanitizer, with Eigen's and libstdc++'s own assertions on.
#include "userfac.hpp"
#include "varops.hpp"
#include "factorama/numerical_jacobian.hpp"
#include "factorama/random_utils.hpp"
#include "factorama/stopwatch.hpp"

namespace vp
{
    const char *kProperty = "P20";
    long n_cases(bool t) { return t ? 200000 : 10000; }

    struct World {
        Ctx& c;
        Rng& r;
        struct G {
            std::shared_ptr<FactorGraph> g = std::make_shared<FactorGraph>();
            std::vector<std::shared_ptr<Factor>> facs;
            std::vector<std::shared_ptr<Variable>> vars; // all it may refer to (kept alive as documented)
            Spec spec;
            std::vector<int> pv, pf; // not yet added
        };
        std::vector<G> gs;
        std::vector<std::unique_ptr<SparseOptimizer>> opts;
        std::vector<char> optSet;
        std::vector<VectorXd> buf; // long-lived buffers of any size
        std::vector<std::vector<MatrixXd>> jbuf;
        Hash trace;
        bool faults = false;
        int refused = 0;
        const char *opname = nullptr;
        World(Ctx& c_) : c(c_), r(c_.rng)
        {
            for (int i = 0; i < 3; i++) {
                buf.push_back(randVec(r, r.range(0, 40), 1));
                jbuf.emplace_back();
                for (int k = r.range(0, 5); k > 0; k--)
                    jbuf.back().push_back(MatrixXd::Constant(r.range(0, 7), r.range(0, 7), r.n()));
            }
            for (int i = r.range(1, 2); i > 0; i--)
                opts.push_back(std::make_unique<SparseOptimizer>()), optSet.push_back(0);
        }
        void newGraph()
        {
            G x;
            GenOpt o = genOpt(r);
            o.size = r.p(0.001) ? r.range(20, 60) : r.range(1, 6);
            o.p2b_local = true;
            o.planes = r.p(0.5);
            o.perturb = r.logu(0.01, 3);
            o.noise = r.logu(0.01, 10);
            if (r.p(0.7)) x.spec = genProblem(r, o).spec;
            // single factors of any kind on variables of any regime
            for (int k = r.range(x.spec.vars.empty() ? 1 : 0, 3); k > 0; k--) {
                Spec e = genFactorSpec(r, (FK)r.range(0, NFK - 1), r.p(0.5));
                int base = (int)x.spec.vars.size();
                for (auto& v : e.vars) {
                    v.id += 1000000 * k;
                    x.spec.vars.push_back(v);
                }
                for (auto& f : e.facs) {
                    f.id += 5000000 * k;
                    for (auto& v : f.v)
                        v += base;
                    x.spec.facs.push_back(f);
                }
            }
            for (size_t i = 0; i < x.spec.vars.size(); i++) {
                x.vars.push_back(makeVar(x.spec.vars[i]));
                if (x.spec.vars[i].in_graph) x.pv.push_back((int)i);
            }
            for (size_t i = 0; i < x.spec.facs.size(); i++)
                x.pf.push_back((int)i);
            if (r.p(0.3)) r.shuffle(x.pf);
            if (r.p(0.3)) r.shuffle(x.pv);
            gs.push_back(std::move(x));
        }
        std::shared_ptr<Factor> wrap(std::shared_ptr<Factor> f)
        {
            auto w = std::make_shared<FaultFactor>(f);
            auto n = std::make_shared<long>(0);
            int kind = r.range(0, 4);
            long at = r.range(0, 12);
            w->onRes = [=](VectorXd& x) {
                if (++*n < at || *n > at + 3) return;
                if (kind == 0) throw std::runtime_error("user factor");
                if (kind == 1 && x.size()) x[0] = std::nan("");
                if (kind == 2 && x.size()) x[0] = INFINITY;
            };
            w->onJac = [=](std::vector<MatrixXd>& J) {
                if (++*n < at || *n > at + 3) return;
                if (kind == 3) throw std::logic_error("user factor");
                if (kind == 4)
                    for (auto& m : J)
                        if (m.size()) m(0, 0) = std::nan("");
            };
            return w;
        }
        template <class F> void attempt(F f)
        {
            try {
                f();
                c.count("done");
                if (opname) c.count(std::string("done:") + opname);
            } catch (const std::exception&) {
                refused++;
                c.count("refused");
            }
        }
        void addSome(G& x, int k)
        {
            while (k-- > 0 && (!x.pv.empty() || !x.pf.empty())) {
                bool var = x.pf.empty() || (!x.pv.empty() && r.p(0.6));
                if (var) {
                    x.g->add_variable(x.vars[x.pv.front()]);
                    x.pv.erase(x.pv.begin());
                } else {
                    auto f = makeFac(x.spec.facs[x.pf.front()], x.vars);
                    if (faults && r.p(0.1)) f = wrap(f);
                    x.facs.push_back(f);
                    x.g->add_factor(f);
                    x.pf.erase(x.pf.begin());
                }
            }
        }
        // on a copy of a variable (another object under the same id), or naming one variable twice
        void oddFactor(G& x)
        {
            size_t i = r.u64() % x.vars.size();
            const VK k = x.spec.vars[i].k;
            if (k != GEN && k != LM) return;
            VarSpec o = x.spec.vars[i];
            o.in_graph = false;
            FacSpec f;
            f.id = 1900000000 + odd++;
            const bool twice = r.p(0.5);
            if (twice) {
                f.k = GB;
                f.v = {(int)i, (int)i, (int)x.vars.size()};
                o.id = 1900000000 + odd;
                o.c = true;
            } else {
                f.k = GP;
                f.v = {(int)x.vars.size()};
                f.p = o.init;
                o.c = r.p(0.4);
            }
            x.spec.vars.push_back(o);
            x.vars.push_back(makeVar(o));
            x.facs.push_back(makeFac(f, x.vars));
            attempt([&] { x.g->add_factor(x.facs.back()); });
            c.count(twice ? "factor-naming-twice" : "factor-on-copy");
            if (r.p(0.3)) { // make it a constant one for now
                (twice ? x.vars[i] : x.vars.back())->set_constant(true);
                attempt([&] { x.g->finalize_structure(); });
                if (r.p(0.5)) x.vars.back()->set_constant(false);
            }
        }
        int odd = 0;
        void readEverything(G& x)
        {
            Hash h;
            h.u((uint64_t)x.g->num_values());
            h.u((uint64_t)x.g->num_residuals());
            for (auto& v : x.g->get_all_variables()) {
                h.m(varBits(*v));
                bool ok = false;
                auto p = x.g->variable_placement(v->id(), ok);
                if (ok) h.u((uint64_t)p.index), h.u((uint64_t)p.variable->id());
                h.u(x.g->get_variable(v->id()) == v.get());
            }
            for (auto& f : x.g->get_all_factors()) {
                bool ok = false;
                auto p = x.g->factor_placement(f->id(), ok);
                if (ok) {
                    h.u((uint64_t)p.residual_index);
                    for (int i : p.variable_column_indices)
                        h.u((uint64_t)i);
                    h.u((uint64_t)p.factor->residual_size());
                }
                h.s(f->name());
            }
            for (auto& kv : x.g->variable_placement_map())
                h.u((uint64_t)kv.second.index);
            for (auto& kv : x.g->factor_placement_map())
                h.u((uint64_t)kv.second.residual_dim);
            h.u(x.g->get_variables_of_type<PoseVariable>().size());
            h.u(x.g->get_variables_of_type<GenericVariable>().size());
            trace.u(h.h);
        }
        void step()
        {
            G& x = gs[r.u64() % gs.size()];
            auto& g = *x.g;
            size_t oi = r.u64() % opts.size();
            auto& opt = *opts[oi];
            int op = r.range(0, 33);
            trace.u((uint64_t)op);
            static const char *names[] = {"add", "add-all", "finalize", "finalize", "residual", "residual-into", "dense", "sparse", "both", "accessors",
                                          "increment", "vector-write", "wrong-size", "duplicate", "variable-op", "constant-toggle", "setup", "optimize",
                                          "optimize", "prepare", "covariance", "print-covariances", "print", "self-test", "factor-eval", "numeric",
                                          "clone", "read-all", "new-graph", "drop-graph", "copy-graph", "wrong-length-value", "so3", "drop-optimizer"};
            c.count(names[op]);
            opname = names[op];
            c.eval();
            switch (op) {
            case 0: addSome(x, r.range(1, 3)); break;
            case 1: addSome(x, 1000); break;
            case 2:
            case 3: attempt([&] { g.finalize_structure(); }); break;
            case 4:
                attempt([&] {
                    VectorXd& v = g.compute_full_residual_vector();
                    trace.m(v);
                });
                break;
            case 5: attempt([&] { g.compute_full_residual_vector(buf[r.u64() % buf.size()]); }); break;
            case 6: attempt([&] { trace.m(g.compute_full_jacobian_matrix()); }); break;
            case 7: attempt([&] { trace.m(MatrixXd(g.compute_sparse_jacobian_matrix())); }); break;
            case 8: attempt([&] { g.compute_full_jacobian_and_residual(); }); break;
            case 9:
                attempt([&] { trace.m(g.residual()); });
                attempt([&] { trace.m(g.jacobian()); });
                attempt([&] { trace.m(MatrixXd(g.sparse_jacobian())); });
                trace.u(g.jacobian_valid());
                trace.u(g.residual_valid());
                break;
            case 10: attempt([&] { g.apply_increment(randVec(r, g.num_values(), r.logu(1e-6, 10))); }); break;
            case 11:
                attempt([&] {
                    VectorXd v = g.get_variable_vector();
                    if (r.p(0.5)) v += randVec(r, (int)v.size(), r.logu(1e-6, 10));
                    g.set_variable_values_from_vector(v);
                });
                break;
            case 12: {
                int n = std::max(0, g.num_values() + r.range(-3, 3));
                attempt([&] { g.apply_increment(randVec(r, n, 1e-3)); });
                attempt([&] { g.set_variable_values_from_vector(randVec(r, std::max(0, n + r.range(-1, 1)), 1)); });
                break;
            }
            case 13:
                attempt([&] {
                    if (!x.g->get_all_variables().empty()) g.add_variable(r.p(0.5) ? x.g->get_all_variables()[0] : x.g->get_all_variables().back()->clone());
                });
                attempt([&] {
                    if (!x.facs.empty()) g.add_factor(r.pick(x.facs));
                });
                if (r.p(0.1)) oddFactor(x);
                break;
            case 14: {
                size_t i = r.u64() % x.vars.size();
                VarOp o = genOp(r, x.spec.vars[i].k, x.vars[i]->size());
                if (o.t == VarOp::CONST) break;
                applyOp(o, *x.vars[i]);
                break;
            }
            case 15: {
                auto& v = r.pick(x.vars);
                v->set_constant(!v->is_constant());
                // the new flags are in force from the next finalize; evaluating before may be refused or outdated
                if (r.p(0.8)) attempt([&] { g.finalize_structure(); });
                break;
            }
            case 16: {
                OptimizerSettings q = genSettings(r);
                q.max_num_iterations = std::min<size_t>(q.max_num_iterations, 10);
                q.check_rank_deficiency = r.p(0.2);
                opt.setup(x.g, q);
                optSet[oi] = 1;
                break;
            }
            case 17:
                if (r.p(0.7)) {
                    attempt([&] { g.finalize_structure(); });
                    OptimizerSettings q = genSettings(r);
                    q.max_num_iterations = std::min<size_t>(q.max_num_iterations, 10);
                    attempt([&] { opt.setup(x.g, q); });
                    optSet[oi] = 1;
                }
                attempt([&] { opt.optimize(); });
                break;
            case 18: attempt([&] { opt.optimize(); }); break;
            case 19: attempt([&] { opt.prepare_to_estimate_covariances(); }); break;
            case 20: {
                bool ok = r.p(0.5);
                attempt([&] {
                    MatrixXd P = opt.estimate_covariance(r.p(0.05) ? nullptr : r.pick(x.vars).get(), ok);
                    if (ok) trace.m(P);
                });
                break;
            }
            case 21:
                attempt([&] { opt.print_all_covariances(); }); // (refused without a graph)
                if (r.p(0.03)) {
                    attempt([&] { opt.setup(nullptr, OptimizerSettings()); });
                    optSet[oi] = 0;
                }
                break;
            case 22:
                attempt([&] { g.print_structure(); });
                attempt([&] { g.print_variables(); });
                attempt([&] { g.print_jacobian_and_residual(r.p(0.5)); });
                for (auto& v : x.vars)
                    v->print();
                for (auto& f : x.facs)
                    trace.s(f->name());
                g.set_verbose(r.p(0.5));
                break;
            case 23: attempt([&] { trace.u(g.detailed_factor_test(r.logu(1e-8, 1e-1), r.p(0.5))); }); break;
            case 24:
                for (int k = 0; k < 3 && !x.facs.empty(); k++) {
                    auto f = r.pick(x.facs);
                    attempt([&] { trace.m(f->compute_residual()); });
                    attempt([&] {
                        VectorXd out(f->residual_size());
                        f->compute_residual(out);
                        trace.m(out);
                    });
                    attempt([&] {
                        // a slice of a longer vector, as the graph does it
                        VectorXd out = VectorXd::Zero(f->residual_size() + 5);
                        f->compute_residual(out.segment(3, f->residual_size()));
                    });
                    attempt([&] {
                        auto& J = jbuf[r.u64() % jbuf.size()];
                        if (r.p(0.5)) { // as another factor of the kind, with other variables, left it: right in one dimension only
                            auto vs = f->variables();
                            J.resize(r.p(0.9) ? vs.size() : vs.size() + (size_t)r.range(-1, 1));
                            for (size_t k = 0; k < J.size(); k++) {
                                const int vs_ = k < vs.size() ? vs[k]->size() : 3;
                                static const int other[] = {0, 1, 2, 3, 4, 6, 9};
                                J[k].setConstant(r.p(0.7) ? f->residual_size() : other[r.u64() % 7], r.p(0.4) ? vs_ : other[r.u64() % 7], 1e9);
                            }
                        }
                        f->compute_jacobians(J);
                        for (auto& m : J)
                            trace.m(m);
                    });
                    for (auto *v : f->variables())
                        trace.u((uint64_t)v->id());
                }
                break;
            case 25:
                if (!x.facs.empty())
                    attempt([&] {
                        auto f = r.pick(x.facs);
                        ComputeNumericalJacobians(*f, jbuf[r.u64() % jbuf.size()], r.logu(1e-8, 1e-4));
                    });
                break;
            case 26: {
                auto v = r.pick(x.vars);
                auto w = v->clone();
                attempt([&] { w->apply_increment(randVec(r, w->size(), 0.1)); });
                attempt([&] { w->set_value_from_vector(v->value()); });
                attempt([&] { v->set_value_from_vector(v->value()); }); // its own value
                attempt([&] { w->apply_increment(w->value()); });
                trace.m(varBits(*w));
                break;
            }
            case 27: readEverything(x); break;
            case 28:
                if (gs.size() < 3) newGraph();
                break;
            case 29:
                if (gs.size() > 1) {
                    // the optimizer may be the last to hold the graph; the variables stay with the graph
                    size_t i = r.u64() % gs.size();
                    keep.push_back(gs[i].vars);
                    gs.erase(gs.begin() + (long)i);
                }
                break;
            case 30: {
                // a copy shares variables and factors, and works on its own
                auto g2 = std::make_shared<FactorGraph>(g);
                attempt([&] { trace.m(g2->compute_full_residual_vector()); });
                attempt([&] { g2->finalize_structure(); });
                attempt([&] { trace.m(MatrixXd(g2->compute_sparse_jacobian_matrix())); });
                if (r.p(0.3)) {
                    x.g = g2;
                } else if (r.p(0.3))
                    *g2 = g;
                break;
            }
            case 31: {
                auto v = r.pick(x.vars);
                int n = r.range(0, 9);
                if (n == v->size()) n++;
                attempt([&] { v->set_value_from_vector(randVec(r, n, 1)); });
                attempt([&] { v->apply_increment(randVec(r, n, 1)); });
                break;
            }
            case 32: {
                Vector3d w = genRotvec(r) * (r.p(0.2) ? r.uni(1, 5) : 1);
                Eigen::Matrix3d R = ExpMapSO3(w);
                trace.m(LogMapSO3(R));
                trace.m(compute_inverse_right_jacobian_so3(w));
                trace.m(unskew(skew_symmetric(w)));
                HuberKernel hk(r.logu(0.1, 10));
                VectorXd res = randVec(r, r.range(0, 5), 3);
                std::vector<MatrixXd> J{MatrixXd::Random(res.size(), 2), MatrixXd(), MatrixXd::Random(res.size(), 6)};
                hk.apply_to_jacobians(res, J);
                trace.m(hk.apply_to_residual(res));
                break;
            }
            case 33:
                if (r.p(0.2)) {
                    opts[oi] = std::make_unique<SparseOptimizer>();
                    optSet[oi] = 0;
                }
                break;
            }
        }
        std::vector<std::vector<std::shared_ptr<Variable>>> keep;
    };

    void run_case(Ctx& c)
    {
        World w(c);
        w.faults = c.rng.p(0.4);
        w.newGraph();
        bool quickStart = c.rng.p(0.6);
        if (quickStart) {
            w.addSome(w.gs[0], 1000);
            w.attempt([&] { w.gs[0].g->finalize_structure(); });
        }
        int n = c.rng.range(10, 60);
        for (int i = 0; i < n; i++)
            w.step();
        c.cover(w.trace.h);
        c.count("histories");
        if (c.want_sample()) c.sample(str(n, " calls, ", w.refused, " refused, on ", w.gs[0].spec.describe()));
    }
} // namespace vp
