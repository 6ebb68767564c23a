// P19: runs are deterministic, and separate graphs are safe in parallel threads.
// VP_MODE=det: every digest must be the same when repeated in the process and in another process (whose heap is
//              filled differently); VP_MODE=threads: the same work in several threads at once, under ThreadSanitizer.
#include "userfac.hpp"
#include "varops.hpp"
#include "factorama/numerical_jacobian.hpp"
#include "factorama/random_utils.hpp"
#include <atomic>
#include <cstdlib>
#include <thread>

namespace vp
{
    const char *kProperty = "P19";
    static bool threads()
    {
        static bool t = getenv("VP_MODE") && std::string(getenv("VP_MODE")) == "threads";
        return t;
    }
    long n_cases(bool t) { return threads() ? (t ? 6000 : 600) : (t ? 20000 : 2000); }

    // everything observable of a whole session on one graph; rng drives the session, so equal seeds are equal sessions
    static uint64_t session(const Spec& s, uint64_t seed, bool quiet, std::string *what = nullptr, std::atomic<int> *overlap = nullptr, int *peak = nullptr)
    {
        Rng r(seed), sched(seed ^ 99);
        Hash h;
        std::ostringstream w;
        auto note = [&](const char *n) {
            if (what) w << n << "=" << std::hex << h.h << " ";
        };
        if (overlap) {
            int now = ++*overlap;
            if (peak) *peak = std::max(*peak, now);
        }
        Scene sc = build(s);
        SparseOptimizer opt;
        int ops = r.range(3, 8);
        for (int k = 0; k < ops; k++) {
            if (overlap && sched.p(0.3)) std::this_thread::yield();
            switch (r.range(0, 7)) {
            case 0: h.m(sc.g->compute_full_residual_vector()); note("residual"); break;
            case 1: {
                h.m(sc.g->compute_full_jacobian_matrix());
                note("dense");
                break;
            }
            case 2: {
                const auto& J = sc.g->compute_sparse_jacobian_matrix();
                h.u((uint64_t)J.nonZeros());
                for (int o = 0; o < J.outerSize(); o++)
                    for (Eigen::SparseMatrix<double>::InnerIterator it(J, o); it; ++it) {
                        h.u((uint64_t)it.row());
                        h.u((uint64_t)it.col());
                        h.d(it.value());
                    }
                note("sparse");
                break;
            }
            case 3:
            case 4: {
                OptimizerSettings q = genSettings(r);
                q.max_num_iterations = std::min<size_t>(q.max_num_iterations, 12);
                if (quiet) q.verbose = false;
                opt.setup(sc.g, q);
                try {
                    opt.optimize();
                } catch (const std::runtime_error& e) {
                    h.s(e.what());
                }
                auto& b = opt.current_stats_;
                h.u((uint64_t)b.status);
                h.u(b.valid);
                h.u((uint64_t)b.current_iteration);
                h.d(b.chi2);
                h.d(b.residual_norm);
                h.d(b.delta_norm);
                h.d(b.damping_parameter);
                h.d(opt.initial_stats_.chi2);
                h.m(sc.bits());
                note("optimize");
                if (r.p(0.7) && finite(sc)) {
                    try {
                        opt.prepare_to_estimate_covariances();
                        for (auto& v : sc.vars) {
                            bool ok = false;
                            MatrixXd P = opt.estimate_covariance(v.get(), ok);
                            h.u(ok);
                            if (ok) h.m(P);
                        }
                    } catch (const std::runtime_error& e) {
                        h.s(e.what());
                    }
                    note("covariance");
                }
                break;
            }
            case 5: {
                VectorXd x = sc.g->get_variable_vector();
                for (int i = 0; i < x.size(); i++)
                    x[i] += 0.01 * r.n();
                sc.g->set_variable_values_from_vector(x);
                h.m(sc.bits());
                note("write");
                break;
            }
            case 6: {
                std::ostringstream o;
                for (auto& f : sc.facs) {
                    h.m(f->compute_residual());
                    std::vector<MatrixXd> J;
                    f->compute_jacobians(J);
                    for (auto& m : J)
                        h.m(m);
                }
                note("factors");
                break;
            }
            case 7: {
                std::vector<MatrixXd> J;
                if (sc.facs.empty()) break;
                auto f = sc.facs[r.u64() % sc.facs.size()];
                try {
                    ComputeNumericalJacobians(*f, J, 1e-6);
                    for (auto& m : J)
                        h.m(m);
                } catch (const std::runtime_error& e) {
                    h.s(e.what());
                }
                // placements and clones
                for (auto& v : sc.vars) {
                    bool ok = false;
                    auto p = sc.g->variable_placement(v->id(), ok);
                    h.u(ok);
                    if (ok) h.u((uint64_t)(p.index * 100 + p.dim));
                    h.m(varBits(*v->clone()));
                }
                note("numeric");
                break;
            }
            }
        }
        if (overlap) --*overlap;
        if (what) *what = w.str();
        return h.h;
    }

    static Spec spec(Rng& r)
    {
        GenOpt o = genOpt(r);
        o.size = r.range(1, 7);
        if (r.p(0.006)) o.size = r.range(20, 60);
        o.p2b_local = true;
        o.planes = r.p(0.3);
        o.noise = r.p(0.4) ? 0 : r.logu(0.05, 3);
        o.perturb = r.logu(0.01, 0.5);
        return genProblem(r, o).spec;
    }

    static void det(Ctx& c)
    {
        Rng& r = c.rng;
        Spec s = spec(r);
        uint64_t seed = r.u64();
        std::string a, b;
        uint64_t h0 = session(s, seed, false, &a);
        // between the repetitions: other work, and a heap in another state
        std::vector<std::unique_ptr<char[]>> junk;
        for (int i = r.range(0, 200); i > 0; i--) {
            size_t n = (size_t)r.logu(8, 20000);
            junk.emplace_back(new char[n]);
            for (size_t k = 0; k < n; k++)
                junk.back()[k] = (char)r.u64();
        }
        for (size_t i = 0; i < junk.size(); i += 2)
            junk[i].reset();
        Spec other = spec(r);
        session(other, r.u64(), false);
        uint64_t h1 = session(s, seed, false, &b);
        c.eval();
        c.check(h0 == h1, "repetition-differs", str(a, " | ", b, " | ", s.describe()));
        c.cover(h0); // compared between processes by the runner
        c.count("repeated");
        if (c.want_sample()) c.sample(str(a, " ", s.describe()));
    }

    static void par(Ctx& c)
    {
        Rng& r = c.rng;
        int n = r.range(2, 6);
        std::vector<Spec> specs;
        std::vector<uint64_t> seeds, alone, together;
        bool same = r.p(0.3); // all threads on equal (but separate) graphs
        for (int i = 0; i < n; i++) {
            specs.push_back(same && i ? specs[0] : spec(r));
            seeds.push_back(same && i ? seeds[0] : r.u64());
            alone.push_back(session(specs[i], seeds[i], true));
        }
        together.assign(n, 0);
        std::vector<int> peak(n, 0);
        std::atomic<int> ready{0}, overlap{0};
        std::vector<std::thread> th;
        for (int i = 0; i < n; i++)
            th.emplace_back([&, i]() {
                ready++;
                while (ready < n)
                    std::this_thread::yield();
                together[i] = session(specs[i], seeds[i], true, nullptr, &overlap, &peak[i]);
            });
        for (auto& t : th)
            t.join();
        int mx = 0;
        for (int i = 0; i < n; i++) {
            c.check(alone[i] == together[i], "thread-differs", str("thread ", i, " of ", n, " ", specs[i].describe()));
            mx = std::max(mx, peak[i]);
            c.cover(together[i]);
            c.eval();
        }
        c.count(str("concurrent:", mx));
        if (mx > 1) c.count("overlapped");
        c.count("threads", n);
    }

    void run_case(Ctx& c)
    {
        if (threads()) par(c);
        else det(c);
    }
} // namespace vp
