// P09: ids are unique, lookups by id are right, and placements partition the problem.
#include "userfac.hpp"
#include "varops.hpp"

namespace vp
{
    const char *kProperty = "P09";
    long n_cases(bool t) { return t ? 100000 : 12000; }

    template <class T> static std::vector<const Variable *> ofType(const FactorGraph& g)
    {
        std::vector<const Variable *> o;
        for (auto& p : g.get_variables_of_type<T>())
            o.push_back(p.get());
        return o;
    }
    template <class T> static std::vector<const Variable *> wantType(const std::vector<std::shared_ptr<Variable>>& v)
    {
        std::vector<const Variable *> o;
        for (auto& p : v)
            if (dynamic_cast<T *>(p.get())) o.push_back(p.get());
        return o;
    }

    struct World {
        Ctx& c;
        Rng& r;
        FactorGraph g;
        std::vector<std::shared_ptr<Variable>> vin;
        std::vector<std::shared_ptr<Factor>> fin;
        bool fresh = false; // finalized with the present content
        std::string ctx;
        World(Ctx& c_) : c(c_), r(c_.rng) {}
        bool usedV(int id)
        {
            for (auto& v : vin)
                if (v->id() == id) return true;
            return false;
        }
        bool usedF(int id)
        {
            for (auto& f : fin)
                if (f->id() == id) return true;
            return false;
        }
        int unknown(bool var)
        {
            for (;;) {
                int id;
                switch (r.range(0, 5)) {
                case 0: id = r.range(-3, 3); break;
                case 1: id = (int)r.u64(); break;
                case 2: id = 2147483647; break;
                case 3: id = -2147483647 - 1; break;
                case 4: // an index
                    id = r.range(0, (int)vin.size());
                    break;
                default: // next to an id in use, or the id of the other kind
                    if (r.p(0.5) && vin.size()) id = r.pick(vin)->id() + r.range(-1, 1);
                    else if (fin.size())
                        id = r.pick(fin)->id() + r.range(-1, 1);
                    else
                        continue;
                }
                if (!(var ? usedV(id) : usedF(id))) return id;
            }
        }
        void lists(const char *when)
        {
            c.check(g.get_all_variables() == vin, "variable-list", str("get_all_variables differs from the insertion order ", when, " ", ctx));
            c.check(g.get_all_factors() == fin, "factor-list", str("get_all_factors differs from the insertion order ", when, " ", ctx));
            c.check(g.num_variables() == (int)vin.size(), "num-variables", str(g.num_variables(), " for ", vin.size(), " ", when, " ", ctx));
            for (auto& v : vin)
                c.check(g.get_variable(v->id()) == v.get(), "lookup", str("id ", v->id(), " ", when, " ", ctx));
            for (int k = 0; k < 3; k++) {
                int id = unknown(true);
                c.check(g.get_variable(id) == nullptr, "lookup-unknown", str("id ", id, " ", when, " ", ctx));
            }
            c.check(ofType<PoseVariable>(g) == wantType<PoseVariable>(vin), "type:pose", ctx);
            c.check(ofType<LandmarkVariable>(g) == wantType<LandmarkVariable>(vin), "type:landmark", ctx);
            c.check(ofType<GenericVariable>(g) == wantType<GenericVariable>(vin), "type:generic", ctx);
            c.check(ofType<RotationVariable>(g) == wantType<RotationVariable>(vin), "type:rotation", ctx);
            c.check(ofType<Pose2DVariable>(g) == wantType<Pose2DVariable>(vin), "type:pose2d", ctx);
            c.check(ofType<PlaneVariable>(g) == wantType<PlaneVariable>(vin), "type:plane", ctx);
            c.check(ofType<InverseRangeVariable>(g) == wantType<InverseRangeVariable>(vin), "type:inverse-range", ctx);
            c.check(ofType<Variable>(g) == wantType<Variable>(vin), "type:any", ctx);
            c.eval();
        }
        template <class F> bool throws(F f)
        {
            try {
                f();
            } catch (const std::exception&) {
                return true;
            }
            return false;
        }
        void duplicates()
        {
            if (vin.size() && r.p(0.7)) {
                auto old = r.pick(vin);
                std::shared_ptr<Variable> dup;
                int how = r.range(0, 2);
                if (how == 0) dup = old; // the same object again
                if (how == 1) dup = old->clone();
                if (how == 2) dup = makeVar(genVar(r, (VK)r.range(0, 6), old->id()));
                c.check(throws([&] { g.add_variable(dup); }), "duplicate-variable-accepted", str("id ", old->id(), " ", ctx));
                c.count("duplicate-variable");
            }
            if (fin.size() && r.p(0.7)) {
                auto old = r.pick(fin);
                std::shared_ptr<Factor> dup = old;
                if (r.p(0.6)) {
                    Spec s = genFactorSpec(r, (FK)r.range(0, NFK - 1), true);
                    s.facs[0].id = old->id();
                    std::vector<std::shared_ptr<Variable>> v;
                    for (auto& x : s.vars)
                        v.push_back(makeVar(x));
                    dup = makeFac(s.facs[0], v);
                }
                c.check(throws([&] { g.add_factor(dup); }), "duplicate-factor-accepted", str("id ", old->id(), " ", ctx));
                c.count("duplicate-factor");
            }
            lists("after a refused duplicate");
            if (fresh) placements("after a refused duplicate");
        }
        void placements(const char *when)
        {
            int n = 0, m = 0;
            std::map<int, int> cols, rows; // start -> length
            for (auto& v : vin) {
                bool ok = false;
                VariablePlacement p = g.variable_placement(v->id(), ok);
                if (!c.check(ok && p.variable == v.get(), "variable-placement", str("id ", v->id(), " valid ", ok, " ", when, " ", ctx))) continue;
                if (v->is_constant()) {
                    c.check(p.dim == 0, "constant-takes-columns", str("id ", v->id(), " dim ", p.dim, " ", when, " ", ctx));
                    continue;
                }
                n += v->size();
                c.check(p.dim == v->size(), "column-width", str("id ", v->id(), " dim ", p.dim, " size ", v->size(), " ", when, " ", ctx));
                c.check(cols.emplace(p.index, p.dim).second || p.dim == 0, "columns-overlap", str("two variables start at ", p.index, " ", ctx));
            }
            for (auto& f : fin) {
                bool ok = false;
                FactorPlacement p = g.factor_placement(f->id(), ok);
                if (!c.check(ok && p.factor == f.get(), "factor-placement", str("id ", f->id(), " valid ", ok, " ", when, " ", ctx))) continue;
                m += f->residual_size();
                c.check(p.residual_dim == f->residual_size(), "row-height", str("id ", f->id(), " ", p.residual_dim, " vs ", f->residual_size(), " ", ctx));
                c.check(rows.emplace(p.residual_index, p.residual_dim).second || p.residual_dim == 0, "rows-overlap",
                        str("two factors start at ", p.residual_index, " ", ctx));
                std::vector<int> ci, di;
                for (auto *v : f->variables()) {
                    if (v->is_constant()) continue;
                    bool vo = false;
                    auto vp_ = g.variable_placement(v->id(), vo);
                    ci.push_back(vp_.index);
                    di.push_back(vp_.dim);
                }
                c.check(ci == p.variable_column_indices && di == p.variable_dims, "factor-columns", str("id ", f->id(), " ", when, " ", ctx));
            }
            auto tile = [&](const std::map<int, int>& t, int total, const char *what) {
                int at = 0;
                for (auto& [s, l] : t) {
                    c.check(s == at, str(what, "-gap-or-overlap"), str("block at ", s, " expected at ", at, " ", when, " ", ctx));
                    at = s + l;
                }
                c.check(at == total, str(what, "-total"), str(at, " of ", total, " ", when, " ", ctx));
            };
            tile(cols, n, "columns");
            tile(rows, m, "rows");
            c.check(g.num_values() == n, "num-values", str(g.num_values(), " for ", n, " ", when, " ", ctx));
            c.check(g.num_residuals() == m, "num-residuals", str(g.num_residuals(), " for ", m, " ", when, " ", ctx));
            c.check(g.variable_placement_map().size() == vin.size(), "variable-map-size", ctx);
            c.check(g.factor_placement_map().size() == fin.size(), "factor-map-size", ctx);
            for (auto& v : vin)
                c.check(g.variable_placement_map().count(v->id()), "variable-map-key", ctx);
            for (auto& f : fin)
                c.check(g.factor_placement_map().count(f->id()), "factor-map-key", ctx);
            for (int k = 0; k < 3; k++) {
                bool ok = true;
                int id = unknown(true);
                g.variable_placement(id, ok);
                c.check(!ok, "unknown-variable-placement", str("id ", id, " ", ctx));
                ok = true;
                id = unknown(false);
                g.factor_placement(id, ok);
                c.check(!ok, "unknown-factor-placement", str("id ", id, " ", ctx));
            }
            // the places are where the Jacobian's entries are
            c.eval();
            c.count("placements");
        }
    };

    void run_case(Ctx& c)
    {
        Rng& r = c.rng;
        World w(c);
        GenOpt o = genOpt(r);
        o.size = r.range(1, 9);
        largeCase(c, o, 100, 40, 200, false);
        o.pconst = r.p(0.5) ? 0.4 : 0.1;
        o.planes = r.p(0.3);
        o.nice_ids = r.p(0.1);
        Spec s = genProblem(r, o).spec;
        // ids of one kind may equal those of the other kind
        if (r.p(0.3)) {
            std::vector<int> ids;
            for (auto& v : s.vars)
                ids.push_back(v.id);
            r.shuffle(ids);
            for (size_t i = 0; i < s.facs.size() && i < ids.size(); i++) {
                bool clash = false;
                for (size_t j = 0; j < s.facs.size(); j++)
                    clash |= j != i && s.facs[j].id == ids[i];
                if (!clash) s.facs[i].id = ids[i];
            }
        }
        w.ctx = s.describe().substr(0, 700);
        std::vector<std::shared_ptr<Variable>> vars;
        for (auto& v : s.vars)
            vars.push_back(makeVar(v));
        // interleaved random order; factors may come before their variables
        std::vector<std::pair<int, int>> ord;
        for (size_t i = 0; i < s.vars.size(); i++)
            if (s.vars[i].in_graph) ord.push_back({0, (int)i});
        for (size_t i = 0; i < s.facs.size(); i++)
            ord.push_back({1, (int)i});
        r.shuffle(ord);
        w.lists("when empty");
        for (auto& [kind, i] : ord) {
            if (kind == 0) {
                w.g.add_variable(vars[i]);
                w.vin.push_back(vars[i]);
            } else {
                auto f = makeFac(s.facs[i], vars);
                w.g.add_factor(f);
                w.fin.push_back(f);
            }
            w.fresh = false;
            if (r.p(0.15)) w.lists("while growing");
            if (r.p(0.2)) w.duplicates();
            if (r.p(0.1)) {
                try {
                    w.g.finalize_structure();
                    w.fresh = true;
                    w.placements("after an early finalize");
                } catch (const std::runtime_error&) {
                }
            }
        }
        w.lists("at the end");
        for (int k = r.range(1, 3); k > 0; k--) {
            w.g.finalize_structure();
            w.fresh = true;
            w.placements("after finalize");
            w.lists("after finalize");
            w.duplicates();
            // use the graph: nothing of the above may change
            if (r.p(0.5)) {
                try {
                    w.g.compute_full_jacobian_and_residual();
                    w.g.compute_sparse_jacobian_matrix();
                    OptimizerSettings q;
                    q.method = r.p(0.5) ? OptimizerMethod::GaussNewton : OptimizerMethod::LevenbergMarquardt;
                    q.max_num_iterations = 3;
                    SparseOptimizer opt;
                    opt.setup(std::make_shared<FactorGraph>(w.g), q);
                    opt.optimize();
                } catch (const std::exception&) {
                }
                w.placements("after use");
                w.lists("after use");
            }
            // other constants from now on
            if (w.vin.size()) {
                for (int q = r.range(0, 2); q > 0; q--) {
                    auto& v = r.pick(w.vin);
                    v->set_constant(true);
                }
            }
            Hash h;
            h.u(s.hash());
            for (auto& v : w.vin)
                h.u((uint64_t)v->id());
            h.u((uint64_t)k);
            c.cover(h.h);
        }
        if (c.want_sample()) c.sample(w.ctx);
    }
} // namespace vp
