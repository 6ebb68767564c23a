// P07: graph residual and Jacobians are the stacked factor blocks and never stale.
#include "userfac.hpp"

namespace vp
{
    const char *kProperty = "P07";
    long n_cases(bool t) { return t ? 40000 : 6000; }

    struct Want {
        VectorXd r;
        MatrixXd J;
    };
    // the factors' own answers, placed by insertion order
    static Want stacked(const FactorGraph& g)
    {
        std::map<const Variable *, int> col;
        int n = 0, m = 0;
        for (auto& v : g.get_all_variables())
            if (!v->is_constant()) {
                col[v.get()] = n;
                n += v->size();
            }
        for (auto& f : g.get_all_factors())
            m += f->residual_size();
        Want w;
        w.r = VectorXd::Zero(m);
        w.J = MatrixXd::Zero(m, n);
        int row = 0;
        for (auto& f : g.get_all_factors()) {
            VectorXd r = f->compute_residual();
            w.r.segment(row, r.size()) = r;
            std::vector<MatrixXd> J;
            f->compute_jacobians(J);
            auto vs = f->variables();
            for (size_t i = 0; i < vs.size(); i++) {
                if (vs[i]->is_constant()) continue;
                w.J.block(row, col.at(vs[i]), J[i].rows(), J[i].cols()) = J[i];
            }
            row += f->residual_size();
        }
        return w;
    }
    static bool eq(const MatrixXd& a, const MatrixXd& b)
    {
        if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
        for (int j = 0; j < a.cols(); j++)
            for (int i = 0; i < a.rows(); i++)
                if (!(std::fabs(a(i, j) - b(i, j)) <= 1e-12 * (1 + std::fabs(b(i, j))))) return false;
        return true;
    }

    void run_case(Ctx& c)
    {
        Rng& r = c.rng;
        GenOpt o = genOpt(r);
        o.planes = r.p(0.3);
        o.p2b_local = true;
        o.pconst = r.p(0.4) ? 0.4 : 0.1;
        o.size = r.p(0.1) ? r.range(10, 24) : r.range(1, 8);
        largeCase(c, o, 130, 40, 120, false);
        Spec s = genProblem(r, o).spec;
        r.shuffle(s.facs); // insertion order unrelated to construction order
        // some factors report Jacobians whose entries come and go
        Scene sc;
        sc.spec = s;
        sc.g = std::make_shared<FactorGraph>();
        std::vector<int> order(s.vars.size());
        for (size_t i = 0; i < order.size(); i++)
            order[i] = (int)i;
        r.shuffle(order);
        for (auto& v : s.vars)
            sc.vars.push_back(makeVar(v));
        for (int i : order)
            if (s.vars[i].in_graph) sc.g->add_variable(sc.vars[i]);
        auto zero = std::make_shared<uint64_t>(0);
        auto bomb = std::make_shared<bool>(false); // evaluations of some factors throw
        bool fault = r.p(0.4);
        for (auto& f : s.facs) {
            std::shared_ptr<Factor> p = makeFac(f, sc.vars);
            if (fault && r.p(0.5)) {
                auto w = std::make_shared<FaultFactor>(p);
                uint64_t salt = r.u64();
                w->onRes = [bomb](VectorXd&) {
                    if (*bomb) throw std::runtime_error("injected");
                };
                w->onJac = [zero, salt, bomb](std::vector<MatrixXd>& J) {
                    if (*bomb) throw std::runtime_error("injected");
                    if (!*zero) return;
                    Rng q(salt ^ *zero);
                    for (auto& m : J)
                        for (int i = 0; i < m.size(); i++)
                            if (q.p(0.4)) m.data()[i] = 0;
                };
                p = w;
            }
            sc.facs.push_back(p);
            sc.g->add_factor(p);
        }
        if (fault && r.p(0.6)) *zero = r.u64() | 1; // pattern of the first evaluation differs from later ones
        sc.g->set_verbose(r.p(0.2));
        sc.g->finalize_structure();
        auto& g = *sc.g;
        bool haveR = false, haveJ = false, haveS = false;
        VectorXd mine; // reused result vector
        if (r.p(0.5)) mine = VectorXd::Constant(r.range(0, 40), 3e7);
        const int steps = c.thorough ? r.range(5, 40) : r.range(5, 16);
        std::string last;
        for (int t = 0; t < steps; t++) {
            if (t > 0 && r.p(0.12)) { // fix or release a variable; in force after finalizing again
                auto& vs = g.get_all_variables();
                auto v = vs[r.range(0, (int)vs.size() - 1)];
                v->set_constant(!v->is_constant());
                int n = 0;
                for (auto& x : vs)
                    n += x->is_constant() ? 0 : x->size();
                if (n > g.num_residuals()) v->set_constant(true);
                g.finalize_structure();
                haveR = haveJ = haveS = false;
                c.count("re-finalized");
            }
            if (t > 0 && r.p(0.7)) { // change values by one of the ways there are
                int how = r.range(0, 4);
                if (how == 0) {
                    VectorXd d(g.num_values());
                    for (int i = 0; i < d.size(); i++)
                        d[i] = 0.1 * r.n();
                    g.apply_increment(d);
                } else if (how == 1) {
                    VectorXd x = g.get_variable_vector();
                    for (int i = 0; i < x.size(); i++)
                        x[i] += 0.01 * r.n();
                    g.set_variable_values_from_vector(x);
                } else {
                    // one variable, possibly a constant one
                    auto& v = sc.vars[r.range(0, (int)sc.vars.size() - 1)];
                    VectorXd d(v->size());
                    for (int i = 0; i < d.size(); i++)
                        d[i] = 0.05 * r.n();
                    v->apply_increment(d);
                    if (v->is_constant()) c.count("constant-moved-by-user");
                }
                if (r.p(0.3)) *zero = fault && r.p(0.6) ? (r.u64() | 1) : 0;
                c.count("value-change");
            }
            Want w;
            try {
                w = stacked(g);
            } catch (const std::exception&) {
                throw Skip(); // a factor refuses these values (too close)
            }
            VectorXd bits = sc.bits();
            std::string what;
            auto where = [&]() { return str(" step ", t, " (", what, " after ", last, ") of ", s.describe()); };
            if (fault && r.p(0.25)) { // an evaluation that does not come to its end
                *bomb = true;
                const int k = r.range(0, 4);
                bool threw = false;
                try {
                    if (k == 0) g.compute_full_residual_vector();
                    else if (k == 1) g.compute_full_residual_vector(mine);
                    else if (k == 2) g.compute_full_jacobian_matrix();
                    else if (k == 3) g.compute_sparse_jacobian_matrix();
                    else g.compute_full_jacobian_and_residual();
                } catch (const std::runtime_error&) {
                    threw = true;
                }
                *bomb = false;
                if (threw) {
                    c.count(str("interrupted:", k));
                    last = "interrupted";
                    c.check(sameBits(bits, sc.bits()), "evaluation-moves-variables", str(" interrupted, of ", s.describe()));
                }
            }
            const int op = r.range(0, 6);
            switch (op) {
            case 0: {
                what = "residual";
                VectorXd& x = g.compute_full_residual_vector();
                c.check(eq(x, w.r), "residual", mstr(x.transpose()) + " expected " + mstr(w.r.transpose()) + where());
                haveR = true;
                break;
            }
            case 1:
                what = "residual-into";
                g.compute_full_residual_vector(mine);
                c.check(eq(mine, w.r), "residual-into", where());
                if (r.p(0.3)) mine = VectorXd::Constant(r.range(0, 40), std::nan(""));
                else if (r.p(0.5)) mine.setConstant(std::nan(""));
                break;
            case 2: {
                what = "dense";
                MatrixXd& J = g.compute_full_jacobian_matrix();
                c.check(eq(J, w.J), "dense-jacobian", str(mstr(J - w.J), where()));
                haveJ = true;
                break;
            }
            case 3:
            case 4: {
                what = "sparse";
                auto& S = g.compute_sparse_jacobian_matrix();
                MatrixXd D = MatrixXd(S);
                c.check(eq(D, w.J), "sparse-jacobian", str(mstr(D), " expected ", mstr(w.J), where()));
                haveS = true;
                break;
            }
            case 5:
                what = "both";
                g.compute_full_jacobian_and_residual();
                haveR = haveJ = true;
                c.check(eq(g.jacobian(), w.J) && eq(g.residual(), w.r), "jacobian-and-residual", where());
                break;
            default: {
                what = "print";
                g.print_jacobian_and_residual(r.p(0.5));
                g.print_structure();
                g.print_variables();
                haveR = haveJ = true;
                c.check(eq(g.jacobian(), w.J) && eq(g.residual(), w.r), "after-print", where());
                break;
            }
            }
            c.eval();
            c.count(what);
            if (last.size()) c.count(last + ">" + what);
            last = what;
            c.check(sameBits(bits, sc.bits()), "evaluation-moves-variables", where());
            // accessors give the most recent results
            if (op == 0 || op >= 5) c.check(haveR && g.residual_valid() && eq(g.residual(), w.r), "residual-accessor", where());
            if (op == 2 || op >= 5) c.check(haveJ && g.jacobian_valid() && eq(g.jacobian(), w.J), "jacobian-accessor", where());
            if (op == 3 || op == 4) c.check(haveS && eq(MatrixXd(g.sparse_jacobian()), w.J), "sparse-accessor", where());
            Hash h;
            h.u(s.hash());
            h.m(bits);
            h.u((uint64_t)op);
            c.cover(h.h);
        }
        c.check(g.num_values() == g.compute_full_jacobian_matrix().cols() && g.num_residuals() == g.compute_full_jacobian_matrix().rows(),
                "counts", "num_values/num_residuals differ from the Jacobian's size");
        if (c.want_sample()) c.sample(str(steps, " evaluations of ", s.describe()));
    }
} // namespace vp
