// P10: the variable vector round-trips and wrong-size updates are refused unchanged.
#include "varops.hpp"

namespace vp
{
    const char *kProperty = "P10";
    long n_cases(bool t) { return t ? 60000 : 4000; }

    template <class F> static bool throws(F f)
    {
        try {
            f();
        } catch (const std::exception&) {
            return true;
        }
        return false;
    }

    void run_case(Ctx& c)
    {
        Rng& r = c.rng;
        GenOpt o = genOpt(r);
        o.size = r.range(1, 8);
        largeCase(c, o, 200, 25, 60, false);
        o.pconst = r.p(0.4) ? 0.4 : 0.15;
        o.planes = r.p(0.5);
        Spec s = genProblem(r, o).spec;
        r.shuffle(s.facs);
        Scene sc;
        sc.spec = s;
        sc.g = std::make_shared<FactorGraph>();
        std::vector<int> order;
        for (size_t i = 0; i < s.vars.size(); i++) {
            order.push_back((int)i);
            sc.vars.push_back(makeVar(s.vars[i]));
        }
        r.shuffle(order);
        for (int i : order)
            if (s.vars[i].in_graph) sc.g->add_variable(sc.vars[i]);
        for (auto& f : s.facs)
            sc.g->add_factor(makeFac(f, sc.vars));
        sc.g->finalize_structure();
        FactorGraph& g = *sc.g;
        const int n = g.num_values();
        auto ctx = [&]() { return s.describe().substr(0, 900); };
        std::map<int, int> idx; // var -> column, free graph variables only
        for (size_t i = 0; i < s.vars.size(); i++)
            if (s.vars[i].in_graph && !s.vars[i].c) {
                bool ok = false;
                auto p = g.variable_placement(s.vars[i].id, ok);
                if (!c.check(ok, "placement", ctx())) return;
                idx[(int)i] = p.index;
            }
        auto clones = [&]() {
            std::vector<std::shared_ptr<Variable>> v;
            for (auto& x : sc.vars)
                v.push_back(x->clone());
            return v;
        };
        auto allSame = [&](const std::vector<std::shared_ptr<Variable>>& w) -> int {
            for (size_t i = 0; i < w.size(); i++)
                if (!sameBits(varBits(*w[i]), varBits(*sc.vars[i]))) return (int)i;
            return -1;
        };
        const int steps = r.range(4, 12);
        for (int t = 0; t < steps; t++) {
            // reading
            VectorXd before = sc.bits();
            VectorXd x = g.get_variable_vector();
            c.check(x.size() == n, "vector-size", str(x.size(), " for ", n, " ", ctx()));
            c.check(sameBits(before, sc.bits()), "reading-changes", ctx());
            for (auto& [i, at] : idx) {
                VectorXd v = sc.vars[i]->value();
                bool eq = at + v.size() <= x.size() && sameBits(VectorXd(x.segment(at, v.size())), v);
                c.check(eq, "slice", str("variable ", s.vars[i].id, " at ", at, " reads ", mstr(x.transpose()), " value ", mstr(v.transpose()), " ", ctx()));
            }
            c.eval();
            int op = r.range(0, 5);
            if (op == 0) { // write back what was read
                auto st = sc.states();
                auto other = clones();
                g.set_variable_values_from_vector(x);
                auto now = sc.states();
                for (size_t i = 0; i < st.size(); i++) {
                    L d = now[i].dist(st[i]);
                    c.check(d <= (s.vars[i].k == POSE || s.vars[i].k == ROT ? 2e-8L : 1e-11L * (1 + st[i].v.norm())), "write-back",
                            str("variable ", s.vars[i].id, " moved by ", (double)d, " ", ctx()));
                    if (!idx.count((int)i)) c.check(sameBits(varBits(*other[i]), varBits(*sc.vars[i])), "write-back-touches-others", ctx());
                }
                c.count("write-back");
            } else if (op == 1 || op == 2) { // write something / increment by something
                auto w = clones();
                VectorXd y(n);
                for (auto& [i, at] : idx) {
                    VarOp vo;
                    do
                        vo = genOp(r, s.vars[i].k, sc.vars[i]->size());
                    while (vo.t != (op == 1 ? VarOp::SET : VarOp::INC));
                    y.segment(at, vo.x.size()) = vo.x;
                    if (op == 1) w[i]->set_value_from_vector(vo.x);
                    else
                        w[i]->apply_increment(vo.x);
                }
                VectorXd y0 = y;
                if (op == 1) g.set_variable_values_from_vector(y);
                else
                    g.apply_increment(y);
                int bad = allSame(w);
                c.check(bad < 0, op == 1 ? "write" : "increment",
                        str("variable ", bad < 0 ? 0 : s.vars[bad].id, bad >= 0 && !idx.count(bad) ? " (not free)" : "", " is ",
                            bad < 0 ? "" : mstr(varBits(*sc.vars[bad]).transpose()), " expected ", bad < 0 ? "" : mstr(varBits(*w[bad]).transpose()), " ", ctx()));
                c.check(sameBits(y0, y), "argument-changed", ctx());
                c.count(op == 1 ? "write" : "increment");
            } else { // every wrong length
                VectorXd b0 = sc.bits();
                std::vector<int> lens = {0, 1, n - 1, n + 1, n + r.range(2, 40), 2 * n, r.range(0, 2 * n + 3), n + (idx.empty() ? 1 : sc.vars[idx.begin()->first]->size())};
                int all = 0; // all variables, constants included
                for (auto& v : g.get_all_variables())
                    all += v->size();
                lens.push_back(all);
                for (auto& [i, at] : idx)
                    lens.push_back(n - sc.vars[i]->size());
                for (int l : lens) {
                    if (l == n || l < 0) continue;
                    VectorXd y = randVec(r, l, 1.0);
                    c.check(throws([&] { g.set_variable_values_from_vector(y); }), "wrong-size-write-accepted", str(l, " for ", n, " ", ctx()));
                    c.check(sameBits(b0, sc.bits()), "wrong-size-write-changes", str(l, " for ", n, " ", ctx()));
                    c.check(throws([&] { g.apply_increment(y); }), "wrong-size-increment-accepted", str(l, " for ", n, " ", ctx()));
                    c.check(sameBits(b0, sc.bits()), "wrong-size-increment-changes", str(l, " for ", n, " ", ctx()));
                    c.count("wrong-size-graph", 2);
                }
                for (size_t i = 0; i < sc.vars.size(); i++) {
                    auto& v = *sc.vars[i];
                    int l = r.p(0.3) ? v.size() + 1 : r.p(0.4) ? v.size() - 1 : r.range(0, 12);
                    if (l == v.size()) continue;
                    VectorXd y = randVec(r, l, 1.0);
                    c.check(throws([&] { v.set_value_from_vector(y); }), str("variable-wrong-size-write-accepted:", vkName(s.vars[i].k)), str(l));
                    c.check(throws([&] { v.apply_increment(y); }), str("variable-wrong-size-increment-accepted:", vkName(s.vars[i].k)), str(l));
                    c.count("wrong-size-variable", 2);
                }
                c.check(sameBits(b0, sc.bits()), "variable-wrong-size-changes", ctx());
            }
            c.eval();
            Hash h;
            h.u(s.hash());
            h.m(x);
            h.u((uint64_t)op);
            c.cover(h.h);
        }
        if (c.want_sample()) c.sample(ctx());
    }
} // namespace vp
