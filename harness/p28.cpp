// P28: work and memory stay proportional to the graph and do not grow with use.
#include "userfac.hpp"
#include "factorama/numerical_jacobian.hpp"
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <malloc.h>

// ---- every allocation of the process passes here
extern "C" {
void *__libc_malloc(size_t);
void __libc_free(void *);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
}
static long g_live = 0, g_peak = 0, g_allocs = 0;
static void *taken(void *p)
{
    if (p) {
        g_allocs++;
        g_live += (long)malloc_usable_size(p);
        if (g_live > g_peak) g_peak = g_live;
    }
    return p;
}
extern "C" {
void *malloc(size_t n) { return taken(__libc_malloc(n)); }
void *calloc(size_t a, size_t b) { return taken(__libc_calloc(a, b)); }
void *memalign(size_t a, size_t n) { return taken(__libc_memalign(a, n)); }
void *aligned_alloc(size_t a, size_t n) { return taken(__libc_memalign(a, n)); }
int posix_memalign(void **p, size_t a, size_t n)
{
    void *q = taken(__libc_memalign(a, n));
    if (!q) return ENOMEM;
    *p = q;
    return 0;
}
void free(void *p)
{
    if (p) g_live -= (long)malloc_usable_size(p);
    __libc_free(p);
}
void *realloc(void *p, size_t n)
{
    if (p) g_live -= (long)malloc_usable_size(p);
    void *q = __libc_realloc(p, n);
    if (!q && n && p) g_live += (long)malloc_usable_size(p); // (kept)
    return q ? taken(q) : q;
}
}

// ---- every basic block of the library (and of Eigen inside it) passes here
static long g_work = 0;
extern "C" __attribute__((no_sanitize_coverage)) void __sanitizer_cov_trace_pc() { g_work++; }

namespace vp
{
    bool inDomain(const FacSpec& f, const std::vector<RVar>& st); // gen.cpp
    const char *kProperty = "P28";
    long n_cases(bool t) { return t ? 12000 : 900; }

    struct Counted {
        std::vector<std::shared_ptr<FaultFactor>> f;
        std::vector<long> r, j;
        void reset()
        {
            r.assign(f.size(), 0);
            j.assign(f.size(), 0);
            for (size_t i = 0; i < f.size(); i++) {
                r[i] = f[i]->nres;
                j[i] = f[i]->njac;
            }
        }
        long maxR() const
        {
            long m = 0;
            for (size_t i = 0; i < f.size(); i++)
                m = std::max(m, f[i]->nres - r[i]);
            return m;
        }
        long maxJ() const
        {
            long m = 0;
            for (size_t i = 0; i < f.size(); i++)
                m = std::max(m, f[i]->njac - j[i]);
            return m;
        }
    };

    // ---- evaluations per call
    static void evaluations(Ctx& c)
    {
        Rng& r = c.rng;
        GenOpt o = genOpt(r);
        o.size = r.range(1, 9);
        o.perturb = r.logu(0.01, 0.3);
        Problem P = genProblem(r, o);
        Scene sc = build(P.spec, false);
        auto g = std::make_shared<FactorGraph>();
        for (size_t i = 0; i < sc.vars.size(); i++)
            if (P.spec.vars[i].in_graph) g->add_variable(sc.vars[i]);
        Counted k;
        for (auto& f : sc.facs) {
            k.f.push_back(std::make_shared<FaultFactor>(f));
            g->add_factor(k.f.back());
        }
        auto bound = [&](const char *what, long mr, long mj, const std::string& more = "") {
            c.eval();
            c.count(what);
            c.check(k.maxR() <= mr, str("residual-evaluations:", what), str(k.maxR(), " residual evaluations of one factor, at most ", mr, " ", more, " ", P.spec.describe()));
            c.check(k.maxJ() <= mj, str("jacobian-evaluations:", what), str(k.maxJ(), " Jacobian evaluations of one factor, at most ", mj, " ", more, " ", P.spec.describe()));
            if (getenv("P28_DBG")) fprintf(stderr, "E %s %ld/%ld %ld/%ld\n", what, k.maxR(), mr, k.maxJ(), mj);
            k.reset();
        };
        k.reset();
        try {
            g->finalize_structure();
            bound("finalize", 2, 2);
            for (int t = 0; t < 3; t++) {
                switch (r.range(0, 3)) {
                case 0:
                    g->compute_full_residual_vector();
                    bound("residual", 2, 0);
                    break;
                case 1:
                    g->compute_full_jacobian_matrix();
                    bound("dense-jacobian", 2, 2);
                    break;
                case 2:
                    g->compute_sparse_jacobian_matrix();
                    bound("sparse-jacobian", 2, 2);
                    break;
                default:
                    g->compute_full_jacobian_and_residual();
                    bound("jacobian-and-residual", 2, 2);
                }
            }
        } catch (const std::runtime_error&) {
            throw Skip(); // a factor has no value here
        }
        SparseOptimizer opt;
        for (int run = r.range(1, 3); run > 0; run--) {
            OptimizerSettings q = genSettings(r);
            q.verbose = r.p(0.2);
            q.check_rank_deficiency = r.p(0.2);
            q.max_num_iterations = (size_t)r.range(1, 40);
            if (r.p(0.3)) q.step_tolerance = q.residual_tolerance = 0;
            opt.setup(g, q);
            bound("setup", 2, 2);
            opt.optimize();
            const long its = opt.current_stats_.current_iteration;
            // an iteration needs one Jacobian and at most five trial steps (documented limit)
            const long trials = q.method == OptimizerMethod::GaussNewton ? 1 : 5;
            bound(q.method == OptimizerMethod::GaussNewton ? "optimize-gn" : "optimize-lm", (trials + 2) * (its + 1) + 4, its + 3, str(its, " iterations"));
            if (!finite(sc)) throw Skip();
            opt.prepare_to_estimate_covariances();
            bound("prepare-covariances", 2, 2);
            for (auto& v : sc.vars) {
                bool ok;
                opt.estimate_covariance(v.get(), ok);
            }
            bound("covariances", 1, 1);
        }
        Hash h;
        h.u(P.spec.hash());
        c.cover(h.h);
    }

    // ---- graphs of one kind and any size; the truth is what every measurement says
    static Spec recipe(Rng r, int kind, int n)
    {
        Spec s;
        std::vector<RVar> truth;
        auto add = [&](VK k, const VectorXd& x, bool cst) {
            VarSpec v;
            v.k = k;
            v.id = (int)s.vars.size() * 3 + 1;
            v.c = cst;
            v.in_graph = !cst;
            v.init = x;
            s.vars.push_back(v);
            truth.push_back(initialState(v));
            return (int)s.vars.size() - 1;
        };
        auto fac = [&](FK k, std::vector<int> v) -> FacSpec& {
            FacSpec f;
            f.k = k;
            f.id = (int)s.facs.size();
            f.v = v;
            f.s1 = 0.5;
            f.s2 = 0.2;
            if (k == BP2) f.a = 1e-6;
            if (k == LV) f.a = 0.5;
            f.fit(truth);
            s.facs.push_back(f);
            return s.facs.back();
        };
        auto rnd = [&](int m, double e) {
            VectorXd x(m);
            for (int i = 0; i < m; i++)
                x[i] = e * r.n();
            return x;
        };
        auto btw = [&](FK k, int a, int b) {
            RVar d = truth[a];
            int m;
            if (k == POB) {
                RVar x;
                x.k = ROT;
                m = add(ROT, VectorXd(refLog(M3L(truth[a].R * truth[b].R.transpose())).cast<double>()), true);
            } else if (k == P2B) {
                VectorXd x(3);
                x << (truth[b].v.head(2) - truth[a].v.head(2)).cast<double>(), (double)refWrap(truth[b].v[2] - truth[a].v[2]);
                m = add(GEN, x, true);
            } else
                m = add(GEN, VectorXd((truth[b].v - truth[a].v).cast<double>()), true);
            fac(k, {a, b, m});
        };
        std::vector<int> x;
        switch (kind) {
        case 0: // a chain
            for (int i = 0; i < n; i++) {
                x.push_back(add(LM, rnd(3, 2) + Vector3d(i, 0, 0), false));
                if (i % 10 == 0) fac(GP, {x[i]});
                if (i) btw(GB, x[i - 1], x[i]);
            }
            break;
        case 1: { // a narrow grid
            for (int i = 0; i < n; i++) {
                x.push_back(add(GEN, rnd(2, 1) + Eigen::Vector2d(i / 4, i % 4), false));
                if (i % 12 == 0) fac(GP, {x[i]});
                if (i % 4) btw(GB, x[i - 1], x[i]);
                if (i >= 4) btw(GB, x[i - 4], x[i]);
            }
            break;
        }
        case 2: // planar poses that see landmarks
            for (int i = 0; i < n / 2; i++) {
                VectorXd p(3);
                p << 2.0 * i, r.n(), r.uni(-3, 3);
                x.push_back(add(P2, p, false));
                if (i % 15 == 0) fac(P2P, {x[i]});
                if (i) btw(P2B, x[i - 1], x[i]);
                int l = add(GEN, Eigen::Vector2d(2.0 * i + r.n(), 8 + r.n()), false);
                fac(RB2, {x[i], l});
                if (i) fac(B2, {x[i - 1], l});
            }
            break;
        case 3: // poses in space that see landmarks
            for (int i = 0; i < n / 2; i++) {
                VectorXd p(6);
                p << 2.0 * i, r.n(), r.n(), rnd(3, 0.4);
                x.push_back(add(POSE, p, false));
                if (i % 15 == 0) {
                    fac(PPP, {x[i]});
                    fac(POP, {x[i]});
                }
                if (i) {
                    btw(PPB, x[i - 1], x[i]);
                    btw(POB, x[i - 1], x[i]);
                }
                int l = add(LM, Vector3d(2.0 * i + r.n(), r.n(), 9 + r.n()), false);
                fac(BO, {x[i], l});
                if (i) fac(BP2, {x[i - 1], l});
                if (i > 1) fac(BO, {x[i - 2], l});
                fac(GP, {l});
            }
            break;
        default: { // everything is measured from one constant pose
            VectorXd p(6);
            p << 0, 0, 0, 0.1, 0.2, 0.3;
            int q = add(POSE, p, true);
            for (int i = 0; i < n; i++) {
                int l = add(LM, Vector3d(5 + i % 7, i % 11, 6) + rnd(3, 1), false);
                fac(GP, {l});
                fac(BO, {q, l});
            }
        }
        }
        for (auto& v : s.vars)
            if (!v.c) {
                RVar st = initialState(v);
                VecL d(st.dof());
                for (int i = 0; i < d.size(); i++)
                    d[i] = 0.02 * r.n();
                st.plus(d);
                setInit(v, st);
            }
        return s;
    }
    static const char *kn[] = {"chain", "grid", "planar", "spatial", "star"};

    static void scaling(Ctx& c)
    {
        Rng& r = c.rng;
        const int kind = r.range(0, 4), n = c.thorough && r.p(0.2) ? r.range(500, 1200) : r.p(0.2) ? r.range(250, 500) : r.range(60, 120);
        const bool lm = r.p(0.5), verbose = r.p(0.2);
        const uint64_t sd = r.u64();
        double per[2][3]; // bytes per variable: graph, optimizing, covariances
        double al[2];
        enum { FINALIZE, EVAL, VECTORS, OPTIMIZE, COVARIANCE, SELFTEST, NW };
        double wk[2][NW], damping[2];
        for (int big = 0; big < 2; big++) {
            const int N = big ? 4 * n : n;
            Spec s = recipe(Rng(sd), kind, N);
            auto truthless = initialStates(s);
            const long b0 = g_live;
            g_peak = g_live;
            const long a0 = g_allocs;
            Scene sc = build(s);
            const double graph = (double)(g_peak - b0);
            long w0 = g_work;
            auto work = [&](int what) {
                wk[big][what] = (double)(g_work - w0) / N;
                w0 = g_work;
            };
            sc.g->finalize_structure();
            work(FINALIZE);
            for (int k = 0; k < 2; k++) {
                sc.g->compute_full_residual_vector();
                sc.g->compute_sparse_jacobian_matrix();
            }
            work(EVAL);
            const VectorXd x = sc.g->get_variable_vector();
            sc.g->apply_increment(VectorXd::Zero(x.size()));
            sc.g->set_variable_values_from_vector(x);
            work(VECTORS);
            SparseOptimizer opt;
            OptimizerSettings q;
            q.method = lm ? OptimizerMethod::LevenbergMarquardt : OptimizerMethod::GaussNewton;
            q.step_tolerance = q.residual_tolerance = 0;
            q.verbose = verbose;
            g_peak = g_live;
            // one step (the number of damping values tried may differ between the two sizes), then to the end
            q.max_num_iterations = 1;
            w0 = g_work;
            opt.setup(sc.g, q);
            opt.optimize();
            work(OPTIMIZE);
            damping[big] = opt.current_stats_.damping_parameter;
            q.max_num_iterations = 6;
            opt.setup(sc.g, q);
            opt.optimize();
            const double solving = (double)(g_peak - b0);
            const double allocs = (double)(g_allocs - a0);
            g_peak = g_live;
            w0 = g_work;
            opt.prepare_to_estimate_covariances();
            bool ok = false;
            for (size_t i = 0; i < sc.vars.size() && !ok; i++)
                opt.estimate_covariance(sc.vars[i].get(), ok);
            work(COVARIANCE);
            const double covs = (double)(g_peak - b0);
            if (!verbose) sc.g->detailed_factor_test(1e-3, false);
            work(SELFTEST);
            per[big][0] = graph / N;
            per[big][1] = solving / N;
            per[big][2] = covs / N;
            al[big] = allocs / N;
            c.eval();
            // and large graphs are solved like small ones
            c.check(opt.current_stats_.valid && opt.current_stats_.residual_norm < 1e-6, str("large-graph-unsolved:", kn[kind]),
                    str(N, " variables, status ", (int)opt.current_stats_.status, " residual ", opt.current_stats_.residual_norm));
            c.check(ok, str("large-graph-covariance:", kn[kind]), str(N, " variables"));
            if (big) c.count("variables-in-large-graphs", N);
        }
        auto ctx = [&]() {
            return str(kn[kind], lm ? " LM " : " GN ", n, " and ", 4 * n, " variables: bytes per variable for the graph ", per[0][0], " -> ", per[1][0], ", while optimizing ", per[0][1], " -> ",
                       per[1][1], ", for a covariance ", per[0][2], " -> ", per[1][2], ", allocations ", al[0], " -> ", al[1]);
        };
        if (getenv("P28_DBG")) fprintf(stderr, "S %s %g %g %g %g\n", kn[kind], per[1][0] / per[0][0], per[1][1] / per[0][1], per[1][2] / per[0][2], al[1] / al[0]);
        c.count(str("scaling:", kn[kind]));
        static const char *wn[] = {"graph", "optimize", "covariance"};
        for (int i = 0; i < 3; i++)
            c.check(per[1][i] <= 1.8 * per[0][i], str("memory-grows-faster-than-the-graph:", wn[i]), ctx());
        static const char *wkn[] = {"finalize", "evaluate", "vectors", "optimize", "covariance", "self-test"};
        for (int i = 0; i < NW; i++) {
            const double most = 1.25; // (room for ordered containers and for the fill-in of a grid)
            if ((i == SELFTEST && verbose) || (i == OPTIMIZE && damping[0] != damping[1])) continue;
            if (getenv("P28_DBG")) fprintf(stderr, "W %s %s %g %g %g\n", kn[kind], wkn[i], wk[0][i], wk[1][i], wk[1][i] / wk[0][i]);
            c.check(wk[1][i] <= most * wk[0][i], str("work-grows-faster-than-the-graph:", wkn[i]),
                    str(kn[kind], lm ? " LM " : " GN ", n, " and ", 4 * n, " variables: basic blocks per variable ", wk[0][i], " -> ", wk[1][i]));
            c.count("work-compared");
        }
        c.check(al[1] <= 3 * al[0], "allocations-grow-faster-than-the-graph", ctx());
        Hash h;
        h.u(sd);
        h.u((uint64_t)kind * 1000 + n);
        c.cover(h.h);
        if (c.want_sample()) c.sample(ctx());
    }

    // ---- the same round of work again and again
    static void steady(Ctx& c)
    {
        Rng& r = c.rng;
        GenOpt o = genOpt(r);
        o.size = r.range(1, 7);
        o.p2b_local = true;
        o.perturb = 0.02;
        Problem P = genProblem(r, o);
        const Spec& s = P.spec;
        for (auto& f : s.facs)
            if (!inDomain(f, P.truth) || !inDomain(f, initialStates(s))) throw Skip();
        std::vector<int> plan;
        for (int k = r.range(1, 6); k > 0; k--)
            plan.push_back(r.range(0, 11));
        const int method = r.range(0, 1);
        const long start = g_live;
        std::vector<long> live;
        std::string what;
        long worstPeak = 0, firstPeak = 0;
        const int warm = 4, rounds = c.thorough ? 120 : 50;
        live.reserve(160);
        const long b1 = g_live;
        {
            Scene sc = build(s);
            auto opt = std::make_unique<SparseOptimizer>();
            OptimizerSettings q;
            q.max_num_iterations = 3;
            q.step_tolerance = q.residual_tolerance = 0;
            q.method = method ? OptimizerMethod::LevenbergMarquardt : OptimizerMethod::GaussNewton;
            opt->setup(sc.g, q);
            std::vector<MatrixXd> J;
            for (int i = 0; i < warm + rounds; i++) {
                // every round starts from the same state, so that it does the same
                for (size_t k = 0; k < sc.vars.size(); k++)
                    sc.vars[k]->set_value_from_vector(initialState(s.vars[k]).toValue().cast<double>());
                g_peak = g_live;
                for (int op : plan) {
                    try {
                        switch (op) {
                        case 0: sc.g->compute_full_residual_vector(); break;
                        case 1: sc.g->compute_full_jacobian_and_residual(); break;
                        case 2: sc.g->compute_sparse_jacobian_matrix(); break;
                        case 3: opt->optimize(); break;
                        case 4:
                            opt->setup(sc.g, q);
                            opt->optimize();
                            opt->prepare_to_estimate_covariances();
                            for (auto& v : sc.vars) {
                                bool ok;
                                opt->estimate_covariance(v.get(), ok);
                            }
                            break;
                        case 5: sc.g->finalize_structure(); break;
                        case 6: sc.g->apply_increment(VectorXd::Constant(sc.g->num_values(), 1e-4)); break;
                        case 7: sc.g->set_variable_values_from_vector(sc.g->get_variable_vector()); break;
                        case 8:
                            sc.g->print_structure();
                            sc.g->print_variables();
                            sc.g->print_jacobian_and_residual(true);
                            break;
                        case 9: sc.g->detailed_factor_test(1e-3, true); break;
                        case 10:
                            for (auto& f : sc.facs) {
                                f->compute_jacobians(J);
                                ComputeNumericalJacobians(*f, J, 1e-6);
                                f->compute_residual();
                            }
                            break;
                        default:
                            for (auto& v : sc.vars)
                                v->clone()->name();
                        }
                    } catch (const std::runtime_error&) {
                    }
                }
                live.push_back(g_live);
                if (i == warm) firstPeak = g_peak;
                if (i > warm) worstPeak = std::max(worstPeak, g_peak);
            }
            J = {};
        }
        const long left = g_live - b1;
        for (int op : plan)
            what += str(op, " ");
        auto ctx = [&]() {
            std::string t;
            for (long l : live)
                t += str(l - start, " ");
            return str("calls ", what, method ? "LM" : "GN", " bytes in use after each round: ", t, " left at the end: ", left, " of ", s.describe());
        };
        long grew = 0;
        for (size_t i = warm + 1; i < live.size(); i++)
            grew += live[i] > live[i - 1];
        c.eval();
        c.count("steady", 1);
        for (int op : plan)
            c.count(str("steady-op:", op));
        const long total = live.back() - live[warm];
        if (getenv("P28_DBG")) fprintf(stderr, "G %ld %ld %ld %ld\n", grew, total, left, worstPeak - firstPeak);
        c.check(total <= 256, // (chunk sizes vary by a few words)
                "memory-grows-with-use", ctx());
        c.check(worstPeak - firstPeak <= 4096 + firstPeak / 4, "peak-grows-with-use", ctx());
        c.check(left <= 512, "memory-left", ctx());
        Hash h;
        h.u(s.hash());
        for (int op : plan)
            h.u((uint64_t)op);
        c.cover(h.h);
        if (c.want_sample() && c.idx > 5) c.sample(ctx());
    }

    void run_case(Ctx& c)
    {
        switch (c.idx % 3) {
        case 0: evaluations(c); break;
        case 1: scaling(c); break;
        default:
            steady(c);
        }
    }
} // namespace vp
