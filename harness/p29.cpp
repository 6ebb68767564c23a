// P29: copies of graphs, variables and factors are complete and keep their own structure.
#include "varops.hpp"
#include "factorama/bearing_observation_factor.hpp"
#include "factorama/bearing_observation_factor_2d.hpp"
#include "factorama/bearing_projection_factor_2d.hpp"
#include "factorama/coordinate_transform_factor.hpp"
#include "factorama/generic_between_factor.hpp"
#include "factorama/generic_prior_factor.hpp"
#include "factorama/inverse_range_bearing_factor.hpp"
#include "factorama/linear_velocity_factor.hpp"
#include "factorama/plane_factor.hpp"
#include "factorama/plane_prior_factor.hpp"
#include "factorama/pose_2d_between_factor.hpp"
#include "factorama/pose_2d_prior_factor.hpp"
#include "factorama/pose_between_factors.hpp"
#include "factorama/pose_prior_factors.hpp"
#include "factorama/range_bearing_factor_2d.hpp"
#include "factorama/rotation_prior_factor.hpp"
#include <type_traits>
#include <typeinfo>

namespace vp
{
    const char *kProperty = "P29";
    long n_cases(bool t) { return t ? 500000 : 60000; }

    // ---- copies of single objects
    template <class T, class Base> bool copyAs(const Base& b, Base *onto, std::shared_ptr<Base>& out, bool& assigned)
    {
        if (typeid(b) != typeid(T)) return false;
        const T& t = static_cast<const T&>(b);
        out = std::make_shared<T>(t);
        assigned = false;
        if constexpr (std::is_copy_assignable<T>::value)
            if (onto && typeid(*onto) == typeid(T)) {
                static_cast<T&>(*onto) = t;
                assigned = true;
            }
        return true;
    }
    template <class Base, class... T> bool copyAny(const Base& b, Base *onto, std::shared_ptr<Base>& out, bool& assigned)
    {
        return (copyAs<T, Base>(b, onto, out, assigned) || ...);
    }
    static bool copyVar(const Variable& v, Variable *onto, std::shared_ptr<Variable>& out, bool& as)
    {
        return copyAny<Variable, GenericVariable, LandmarkVariable, RotationVariable, PoseVariable, Pose2DVariable, PlaneVariable, InverseRangeVariable>(v, onto, out, as);
    }
    static bool copyFac(const Factor& f, Factor *onto, std::shared_ptr<Factor>& out, bool& as)
    {
        return copyAny<Factor, GenericPriorFactor, GenericBetweenFactor, LinearVelocityFactor, PosePositionPriorFactor, PoseOrientationPriorFactor, RotationPriorFactor,
                       PosePositionBetweenFactor, PoseOrientationBetweenFactor, BearingObservationFactor, InverseRangeBearingFactor, BearingProjectionFactor2D,
                       BearingObservationFactor2D, RangeBearingFactor2D, Pose2DPriorFactor, Pose2DBetweenFactor, PlaneFactor, PlanePriorFactor, CoordinateTransformFactor>(f, onto, out, as);
    }
    static VectorXd residual(const Factor& f)
    {
        try {
            return f.compute_residual();
        } catch (const std::runtime_error&) {
            return VectorXd::Constant(1, -12345.0);
        }
    }
    static std::string facState(Factor& f)
    {
        std::string s = str(f.id(), " ", (int)f.type(), " ", f.name(), " ", f.residual_size());
        for (Variable *v : f.variables())
            s += str(" ", (const void *)v);
        return s;
    }
    static bool sameFac(Factor& a, Factor& b, std::string& why)
    {
        if (facState(a) != facState(b)) {
            why = facState(a) + " and " + facState(b);
            return false;
        }
        VectorXd ra = residual(a), rb = residual(b);
        if (!sameBits(ra, rb)) {
            why = str("residual ", mstr(ra.transpose()), " and ", mstr(rb.transpose()));
            return false;
        }
        std::vector<MatrixXd> ja, jb;
        bool ta = false, tb = false;
        try {
            a.compute_jacobians(ja);
        } catch (const std::runtime_error&) {
            ta = true;
        }
        try {
            b.compute_jacobians(jb);
        } catch (const std::runtime_error&) {
            tb = true;
        }
        bool ok = ta == tb && (ta || ja.size() == jb.size());
        for (size_t i = 0; ok && !ta && i < ja.size(); i++)
            ok = sameBits(ja[i], jb[i]);
        if (!ok) why = "Jacobians";
        return ok;
    }
    static void objects(Ctx& c)
    {
        Rng& r = c.rng;
        Hash h;
        { // variables: as P05, but through the copy constructor and the assignment operator
            VK k = (VK)((c.idx / 3) % 7);
            const std::string n = vkName(k);
            VarSpec s = genVar(r, k, (int)(int32_t)r.u64());
            VarSpec s2 = genVar(r, k, (int)(int32_t)r.u64());
            s.c = r.p(0.4);
            s2.c = r.p(0.4);
            auto org = makeVar(s), target = makeVar(s2);
            auto step = [&](Variable& v) {
                for (;;) {
                    VarOp o = genOp(r, k, v.size());
                    if (k == PLANE && o.t == VarOp::INC && (v.value().head(3) + o.x.head(3)).norm() < 0.05) continue;
                    return o;
                }
            };
            for (int i = r.range(0, 8); i > 0; i--)
                applyOp(step(*org), *org);
            for (int i = r.range(0, 3); i > 0; i--)
                applyOp(step(*target), *target);
            std::shared_ptr<Variable> cp;
            bool assigned = false;
            if (!c.check(copyVar(*org, target.get(), cp, assigned), n + ":type", "unknown type")) return;
            std::string what = str(n, mstr(org->value().transpose()));
            std::vector<std::shared_ptr<Variable>> same = {org, cp};
            if (assigned) same.push_back(target);
            c.count(assigned ? "variable-copied-and-assigned" : "variable-copied");
            auto equal = [&](const char *when) {
                c.eval();
                for (size_t i = 1; i < same.size(); i++)
                    c.check(sameBits(varBits(*same[0]), varBits(*same[i])) && same[0]->name() == same[i]->name(), str(n, i == 1 ? ":copied:" : ":assigned:", when),
                            str(mstr(varBits(*same[0]).transpose()), " and ", mstr(varBits(*same[i]).transpose()), " ", what));
            };
            equal("not-equal");
            for (int i = r.range(1, 8); i > 0; i--) {
                VarOp o = step(*org);
                for (auto& v : same)
                    applyOp(o, *v);
                equal("behaves-differently");
            }
            for (int i = r.range(1, 8); i > 0; i--) {
                const size_t w = (size_t)r.range(0, (int)same.size() - 1);
                std::vector<VectorXd> b;
                for (auto& v : same)
                    b.push_back(varBits(*v));
                VarOp o = step(*same[w]);
                applyOp(o, *same[w]);
                for (size_t q = 0; q < same.size(); q++)
                    if (q != w) c.check(sameBits(b[q], varBits(*same[q])), n + ":not-independent", o.describe() + " on one changed another; " + what);
            }
            h.m(varBits(*cp));
        }
        { // factors
            FK k = (FK)((c.idx / 3) % NFK);
            Spec s = genFactorSpec(r, k, true);
            Spec s2 = genFactorSpec(r, k, true);
            Scene sc = build(s, false);
            const std::string n = fkName(k);
            std::shared_ptr<Factor> cp, target;
            std::vector<std::shared_ptr<Variable>> v2; // (the assigned-to factor's first variables)
            for (auto& v : s2.vars)
                v2.push_back(makeVar(v));
            target = makeFac(s2.facs[0], v2);
            bool assigned = false;
            if (!c.check(copyFac(*sc.facs[0], target.get(), cp, assigned), n + ":type", "unknown type")) return;
            c.count(assigned ? "factor-copied-and-assigned" : "factor-copied");
            c.count("factor:" + n);
            v2.clear();
            const bool dropped = r.p(0.5);
            std::shared_ptr<Factor> org = sc.facs[0];
            for (int t = r.range(1, 5); t >= 0; t--) {
                std::string why;
                c.eval();
                c.check(sameFac(*org, *cp, why), n + ":copied", why + " " + s.describe());
                if (assigned) c.check(sameFac(*org, *target, why), n + ":assigned", why + " " + s.describe());
                auto& v = sc.vars[(size_t)r.range(0, (int)sc.vars.size() - 1)];
                if (r.p(0.2)) v->set_constant(!v->is_constant());
                VectorXd d(v->size());
                for (int i = 0; i < d.size(); i++)
                    d[i] = 0.05 * r.n();
                v->apply_increment(d);
            }
            if (dropped) { // a copy needs the original no more
                VectorXd a = residual(*org);
                sc.g.reset();
                sc.facs.clear();
                org.reset();
                c.check(sameBits(a, residual(*cp)), n + ":dies-with-original", s.describe());
                if (assigned) c.check(sameBits(a, residual(*target)), n + ":dies-with-original", s.describe());
            }
            h.u(s.hash());
        }
        c.cover(h.h);
    }

    // ---- copies of graphs
    struct Member {
        std::shared_ptr<FactorGraph> g;
        std::vector<int> va, fa; // what it holds, in order
        enum { NEVER, DIRTY, OK } st = NEVER;
        std::vector<char> flags; // constant flags at the last finalize
        bool moved = false;      // moved from: may only be assigned to or destroyed
        // what its own caches hold, if the structure is finalized and something was evaluated
    };
    struct Pool {
        Ctx& c;
        Rng& r;
        Spec s;
        std::vector<std::shared_ptr<Variable>> vars;
        std::vector<std::shared_ptr<Factor>> facs;
        std::vector<Member> m;
        std::string log;
        Pool(Ctx& c_) : c(c_), r(c_.rng) {}
        void note(const std::string& x)
        {
            log += x + " ";
            if (log.size() > 900) log = "..." + log.substr(log.size() - 800);
        }
        std::vector<char> flags() const
        {
            std::vector<char> f;
            for (auto& v : vars)
                f.push_back(v->is_constant());
            return f;
        }
        bool current(const Member& a) const
        {
            if (a.st != Member::OK) return false;
            for (int i : a.va)
                if (a.flags[i] != (char)vars[i]->is_constant() && vars[i]->size() > 0) return false;
            return true;
        }
        bool finalizable(const Member& a)
        {
            int n = 0, rows = 0;
            std::vector<char> in(vars.size(), 0);
            for (int i : a.va) {
                in[i] = 1;
                if (!vars[i]->is_constant()) n += vars[i]->size();
            }
            for (int i : a.fa) {
                rows += facs[i]->residual_size();
                for (int v : s.facs[i].v)
                    if (!vars[v]->is_constant() && !in[v]) return false;
            }
            return rows >= n;
        }
        template <class F> bool refuses(F f)
        {
            try {
                f();
            } catch (const std::exception&) {
                return true;
            }
            return false;
        }
        // everything that can be read without evaluating
        void structure(int w, const char *when)
        {
            Member& a = m[w];
            FactorGraph& g = *a.g;
            const std::string k = str("graph:", when);
            const std::string ctx = str("member ", w, " ", log);
            c.eval();
            bool ok = g.num_variables() == (int)a.va.size() && g.get_all_variables().size() == a.va.size() && g.get_all_factors().size() == a.fa.size();
            if (!c.check(ok, k + ":size", ctx)) return;
            for (size_t i = 0; i < a.va.size(); i++)
                c.check(g.get_all_variables()[i].get() == vars[a.va[i]].get() && g.get_variable(s.vars[a.va[i]].id) == vars[a.va[i]].get(), k + ":variables", ctx);
            for (size_t i = 0; i < a.fa.size(); i++)
                c.check(g.get_all_factors()[i].get() == facs[a.fa[i]].get(), k + ":factors", ctx);
            for (size_t i = 0; i < vars.size(); i++)
                if (std::find(a.va.begin(), a.va.end(), (int)i) == a.va.end()) c.check(g.get_variable(s.vars[i].id) == nullptr, k + ":foreign-variable", ctx);
            if (a.st != Member::OK) return;
            int n = 0, rows = 0;
            for (int i : a.va) {
                bool v = false;
                auto p = g.variable_placement(s.vars[i].id, v);
                const int d = a.flags[i] ? 0 : vars[i]->size();
                c.check(v && p.dim == d && (d == 0 || p.index == n) && p.variable == vars[i].get(), k + ":variable-placement", ctx);
                n += d;
            }
            for (int i : a.fa) {
                bool v = false;
                auto p = g.factor_placement(s.facs[i].id, v);
                c.check(v && p.residual_index == rows && p.residual_dim == facs[i]->residual_size() && p.factor == facs[i].get(), k + ":factor-placement", ctx);
                rows += facs[i]->residual_size();
            }
            c.check(g.num_values() == n && g.num_residuals() == rows, k + ":dimensions", str(g.num_residuals(), "x", g.num_values(), " not ", rows, "x", n, " ", ctx));
        }
        void evaluate(int w, const char *when)
        {
            Member& a = m[w];
            FactorGraph& g = *a.g;
            const std::string k = str("graph:", when);
            const std::string ctx = str("member ", w, " ", log);
            if (!current(a)) {
                bool x = refuses([&] { g.compute_full_residual_vector(); }), y = refuses([&] { g.compute_sparse_jacobian_matrix(); }), z = refuses([&] { g.compute_full_jacobian_matrix(); });
                // (the residual does not depend on which variables are constant)
                c.check((x || a.st == Member::OK) && y && z, k + ":answers-without-structure", str(x, y, z, " ", ctx));
                c.count("refused");
                return;
            }
            // the factors' own blocks
            std::vector<int> col(vars.size(), -1);
            int n = 0, rows = 0;
            for (int i : a.va)
                if (!a.flags[i]) {
                    col[i] = n;
                    n += vars[i]->size();
                }
            for (int i : a.fa)
                rows += facs[i]->residual_size();
            VectorXd R(rows);
            MatrixXd J = MatrixXd::Zero(rows, n);
            rows = 0;
            for (int i : a.fa) {
                const int d = facs[i]->residual_size();
                R.segment(rows, d) = facs[i]->compute_residual();
                std::vector<MatrixXd> b;
                facs[i]->compute_jacobians(b);
                for (size_t q = 0; q < b.size(); q++)
                    if (col[s.facs[i].v[q]] >= 0) J.block(rows, col[s.facs[i].v[q]], d, b[q].cols()) += b[q];
                rows += d;
            }
            std::vector<int> ord = {0, 1, 2, 3};
            r.shuffle(ord);
            ord.resize((size_t)r.range(1, 4));
            try {
            for (int o : ord) {
                c.eval();
                c.count("evaluated");
                switch (o) {
                case 0: c.check(sameBits(g.compute_full_residual_vector(), R), k + ":residual", ctx); break;
                case 1: c.check(close(g.compute_full_jacobian_matrix(), J), k + ":dense", ctx); break;
                case 2: {
                    MatrixXd S(g.compute_sparse_jacobian_matrix());
                    c.check(close(S, J), k + ":sparse", str(mstr(S), " not ", mstr(J), " ", ctx));
                    break;
                }
                default:
                    g.compute_full_jacobian_and_residual();
                    c.check(g.residual_valid() && g.jacobian_valid() && sameBits(g.residual(), R) && close(g.jacobian(), J), k + ":both", ctx);
                }
            }
            } catch (const std::runtime_error& e) { // (the factors themselves were evaluated above)
                c.viol(k + ":refused", str(e.what(), " ", ctx));
            }
        }
        static bool close(const MatrixXd& a, const MatrixXd& b)
        {
            return a.rows() == b.rows() && a.cols() == b.cols() && (a.size() == 0 || (a - b).cwiseAbs().maxCoeff() <= 1e-13 * (1 + b.cwiseAbs().maxCoeff()));
        }
        // caches a copy takes over
        struct Caches {
            bool r, j, s;
            VectorXd res;
            MatrixXd jac, sp;
        };
        Caches caches(const FactorGraph& g)
        {
            Caches x;
            x.r = g.residual_valid();
            x.j = g.jacobian_valid();
            x.s = true;
            if (x.r) x.res = g.residual();
            if (x.j) x.jac = g.jacobian();
            try {
                x.sp = MatrixXd(g.sparse_jacobian());
            } catch (const std::runtime_error&) {
                x.s = false;
            }
            return x;
        }
        bool sameCaches(const Caches& a, const Caches& b)
        {
            return a.r == b.r && a.j == b.j && a.s == b.s && sameBits(a.res, b.res) && sameBits(a.jac, b.jac) && sameBits(a.sp, b.sp);
        }
        void verifyAll(const char *when)
        {
            for (size_t i = 0; i < m.size(); i++)
                if (!m[i].moved) {
                    structure((int)i, when);
                    if (r.p(0.6)) evaluate((int)i, when);
                }
        }
        int live()
        {
            std::vector<int> l;
            for (size_t i = 0; i < m.size(); i++)
                if (!m[i].moved) l.push_back((int)i);
            return l.empty() ? -1 : r.pick(l);
        }
    };

    static void graphs(Ctx& c)
    {
        Rng& r = c.rng;
        Pool p(c);
        GenOpt o = genOpt(r);
        o.size = r.range(1, 6);
        largeCase(c, o, 300, 20, 60, false);
        o.p2b_local = true;
        o.planes = false;
        p.s = genProblem(r, o).spec;
        Spec& s = p.s;
        for (auto& v : s.vars)
            p.vars.push_back(makeVar(v));
        for (auto& f : s.facs)
            p.facs.push_back(makeFac(f, p.vars));
        {
            Member a;
            a.g = std::make_shared<FactorGraph>();
            p.m.push_back(a);
        }
        auto add = [&](Member& a, bool var, int count) {
            for (int k = 0; k < count; k++) {
                std::vector<int> left;
                auto& have = var ? a.va : a.fa;
                for (int i = 0; i < (int)(var ? s.vars.size() : s.facs.size()); i++)
                    if ((!var || s.vars[i].in_graph) && std::find(have.begin(), have.end(), i) == have.end()) left.push_back(i);
                if (left.empty()) return;
                const int i = r.p(0.6) ? left[0] : r.pick(left);
                if (var) a.g->add_variable(p.vars[i]);
                else a.g->add_factor(p.facs[i]);
                have.push_back(i);
                if (a.st == Member::OK) a.st = Member::DIRTY;
            }
        };
        // most first members start complete
        if (r.p(0.8)) {
            add(p.m[0], true, 1000);
            add(p.m[0], false, 1000);
        }
        const int steps = r.range(8, c.thorough ? 60 : 26);
        try {
            for (int t = 0; t < steps; t++) {
                int w = p.live();
                if (w < 0) break;
                const int op = r.range(0, 11);
                if (op <= 3) { // copy, assign, move
                    Member& a = p.m[w];
                    auto before = p.caches(*a.g);
                    const bool move = r.p(0.25);
                    int to = -1;
                    if (r.p(0.5) && p.m.size() > 1) {
                        to = r.range(0, (int)p.m.size() - 1);
                        if (move && to == w) continue;
                    }
                    if (to < 0) {
                        if (p.m.size() >= 5) continue;
                        Member b = a;
                        b.g = move ? std::make_shared<FactorGraph>(std::move(*a.g)) : std::make_shared<FactorGraph>(*a.g);
                        p.m.push_back(b);
                        to = (int)p.m.size() - 1;
                        c.count(move ? "move-constructed" : "copy-constructed");
                        p.note(str(move ? "move " : "copy ", w, "->", to));
                    } else {
                        auto g = p.m[to].g;
                        if (to != w) {
                            if (move) *g = std::move(*a.g);
                            else *g = *a.g;
                            Member b = a;
                            b.g = g;
                            b.moved = false;
                            c.count(move ? "move-assigned" : "copy-assigned");
                            c.count(p.m[to].moved ? "assigned-to-moved-from" : "assigned-to-live");
                            p.m[to] = b;
                        } else {
                            FactorGraph& same = *g;
                            *g = same;
                            c.count("self-assigned");
                        }
                        p.note(str(move ? "move= " : "assign ", w, "->", to));
                    }
                    c.eval();
                    c.check(p.sameCaches(before, p.caches(*p.m[to].g)), "graph:cached-results", p.log);
                    if (move) p.m[w].moved = true;
                    else c.check(p.sameCaches(before, p.caches(*p.m[w].g)), "graph:copying-changes-original", p.log);
                    c.count(p.m[to].st == Member::OK ? "of-finalized" : p.m[to].st == Member::DIRTY ? "of-changed" : "of-never-finalized");
                    p.structure(to, "copied");
                    if (r.p(0.7)) p.evaluate(to, "copied");
                } else if (op == 4) {
                    add(p.m[w], r.p(0.5), r.range(1, 3));
                    p.note(str("add ", w));
                } else if (op <= 6) {
                    Member& a = p.m[w];
                    const bool can = p.finalizable(a);
                    const bool thrown = p.refuses([&] { a.g->finalize_structure(); });
                    p.note(str(can ? "finalize " : "finalize! ", w));
                    c.check(thrown == !can, can ? "graph:finalize-refused" : "graph:finalize-accepted", p.log);
                    a.st = thrown ? Member::DIRTY : Member::OK;
                    a.flags = p.flags();
                } else if (op == 7) {
                    if (r.p(0.4)) {
                        int i = r.range(0, (int)p.vars.size() - 1);
                        p.vars[i]->set_constant(!p.vars[i]->is_constant());
                        p.note("flag");
                    }
                } else if (op == 8) {
                    auto& v = p.vars[r.range(0, (int)p.vars.size() - 1)];
                    VectorXd d(v->size());
                    for (int i = 0; i < d.size(); i++)
                        d[i] = 0.02 * r.n();
                    v->apply_increment(d);
                } else if (op == 9) { // through one of them all see the new values
                    Member& a = p.m[w];
                    if (!p.current(a)) continue;
                    if (r.p(0.5)) {
                        a.g->apply_increment(VectorXd::Constant(a.g->num_values(), 1e-3));
                        p.note(str("increment ", w));
                    } else {
                        SparseOptimizer opt;
                        OptimizerSettings q = genSettings(r);
                        q.verbose = false;
                        q.max_num_iterations = (size_t)r.range(1, 5);
                        opt.setup(a.g, q);
                        q = OptimizerSettings(); // (the caller's settings may change)
                        opt.optimize();
                        c.count("optimized");
                        p.note(str("optimize ", w));
                        bool fin = true;
                        for (auto& v : p.vars)
                            fin &= v->value().allFinite();
                        if (!fin) throw Skip();
                    }
                    p.verifyAll("values-changed");
                } else if (op == 10) {
                    if (p.m.size() > 1) { // destroying one leaves the others as they are
                        p.m.erase(p.m.begin() + w);
                        p.note(str("destroy ", w));
                        c.count("destroyed");
                    }
                } else
                    p.verifyAll("later");
            }
            p.verifyAll("end");
        } catch (const std::runtime_error&) {
            // a factor has no value at these values
            c.count("undefined-value");
        }
        Hash h;
        h.u(s.hash());
        h.s(p.log);
        c.cover(h.h);
        if (c.want_sample()) c.sample(p.log);
    }

    void run_case(Ctx& c)
    {
        if (c.idx % 3 == 2) objects(c);
        else graphs(c);
    }
} // namespace vp
