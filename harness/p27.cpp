// P27: printed reports tell the truth. Everything the library prints on request (structure, variables, Jacobian and
// residual, factor test, covariances, optimizer log with its timings) is captured, parsed and compared with values
// obtained otherwise. While optimize() runs, the clock is a simulated one that only advances in user factors.
#include "userfac.hpp"
#include <iostream>
#include <regex>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

namespace
{
    bool g_fake = false;
    long long g_now = 0; // ns
} // namespace
extern "C" int clock_gettime(clockid_t id, struct timespec *ts) noexcept
{
    if (!g_fake) return (int)syscall(SYS_clock_gettime, id, ts);
    long long t = g_now + (id == CLOCK_REALTIME ? 1700000000000000000LL : 1000000000LL);
    ts->tv_sec = t / 1000000000;
    ts->tv_nsec = t % 1000000000;
    return 0;
}

namespace vp
{
    const char *kProperty = "P27";
    long n_cases(bool t) { return t ? 80000 : 7000; }

    struct Capture {
        std::ostringstream o;
        std::streambuf *old;
        Capture() : old(std::cout.rdbuf(o.rdbuf())) {}
        ~Capture() { std::cout.rdbuf(old); }
    };
    template <class F> static std::string captured(F f)
    {
        Capture k;
        f();
        return k.o.str();
    }
    static std::vector<double> numbers(const std::string& s)
    {
        std::vector<double> v;
        size_t i = 0;
        while (i < s.size()) {
            bool word = i > 0 && (isalnum((unsigned char)s[i - 1]) || s[i - 1] == '_');
            const char *p = s.c_str() + i;
            if (!word && (isdigit((unsigned char)*p) || (strchr("+-.", *p) && (isdigit((unsigned char)p[1]) || !strncmp(p + 1, "nan", 3) || !strncmp(p + 1, "inf", 3))) ||
                          !strncmp(p, "nan", 3) || !strncmp(p, "inf", 3))) {
                char *e;
                v.push_back(strtod(p, &e));
                i = (size_t)(e - s.c_str());
                continue;
            }
            i++;
        }
        return v;
    }
    // does the text consist of these numbers, printed with so many digits?
    static bool same(double a, double b, double rel = 1.01e-5) { return (std::isnan(a) && std::isnan(b)) || a == b || std::fabs(a - b) <= rel * std::fabs(b) + 1e-300; }
    static bool isNumbers(const std::string& s, const std::vector<double>& want, double rel = 1.01e-5)
    {
        auto v = numbers(s);
        if (v.size() != want.size()) return false;
        for (size_t i = 0; i < v.size(); i++)
            if (!same(v[i], want[i], rel)) return false;
        return true;
    }
    static std::vector<double> rows(const MatrixXd& m)
    {
        std::vector<double> v;
        for (int i = 0; i < m.rows(); i++)
            for (int j = 0; j < m.cols(); j++)
                v.push_back(m(i, j));
        return v;
    }
    // the number behind a label, counted from a position
    static bool after(const std::string& s, const std::string& label, double& out, size_t from = 0, size_t to = std::string::npos)
    {
        size_t p = s.find(label, from);
        if (p == std::string::npos || p >= to) return false;
        p += label.size();
        while (p < s.size() && (s[p] == ' ' || s[p] == ':'))
            p++;
        char *e;
        out = strtod(s.c_str() + p, &e);
        return e != s.c_str() + p;
    }

    static void variables(Ctx& c, Scene& sc)
    {
        auto before = sc.bits();
        std::string all = captured([&] { sc.g->print_variables(); });
        std::string cat;
        for (auto& v : sc.g->get_all_variables()) {
            std::string one = captured([&] { v->print(); });
            cat += one;
            RVar st = RVar::of(*v);
            std::vector<double> want;
            auto put = [&](const auto& m) {
                for (int i = 0; i < m.rows(); i++)
                    for (int j = 0; j < m.cols(); j++)
                        want.push_back((double)m(i, j));
            };
            switch (st.k) {
            case GEN:
            case LM: put(st.v); break;
            case ROT: put(st.R); break;
            case POSE: put(st.v), put(st.R); break;
            case P2: put(st.v), want.push_back((double)(st.v[2] * 180 / PIL)); break;
            case PLANE: put(st.v); break;
            case IR: put(st.org), want.push_back((double)(1 / st.v[0])), put(st.pos()); break;
            }
            size_t nl = one.find('\n');
            std::string head = one.substr(0, nl), body = nl == std::string::npos ? "" : one.substr(nl);
            c.eval();
            c.count(str("print:", vkName(st.k)));
            c.check(head.find(std::to_string(v->id())) != std::string::npos, "variable-heading", str("id ", v->id(), ": ", one));
            c.check(v->name().find(std::to_string(v->id())) != std::string::npos, "variable-name", str("id ", v->id(), ": ", v->name()));
            // tiny entries of a product may differ in all digits
            auto got = numbers(body);
            bool ok = got.size() == want.size();
            double big = 1;
            for (double w : want)
                big = std::max(big, std::fabs(w));
            for (size_t i = 0; ok && i < got.size(); i++)
                ok = same(got[i], want[i]) || std::fabs(got[i] - want[i]) < 1e-12 * big;
            c.check(ok, str("variable-values:", vkName(st.k)), str(one, " for state ", mstr(st.toValue())));
        }
        c.check(all.size() >= cat.size() && all.compare(all.size() - cat.size(), cat.size(), cat) == 0, "variables-list", all);
        c.check(sameBits(before, sc.bits()), "printing-changes-variables", all);
    }

    static void structure(Ctx& c, Scene& sc)
    {
        std::string t = captured([&] { sc.g->print_structure(); });
        double nv = -1, nf = -1, nr = -1, nx = -1;
        bool ok = after(t, "Variables:", nv) && after(t, "Factors:", nf) && after(t, "Residuals:", nr) && after(t, "Values:", nx);
        int m = 0, n = 0;
        for (auto& f : sc.g->get_all_factors())
            m += f->residual_size();
        for (auto& v : sc.g->get_all_variables())
            if (!v->is_constant()) n += v->size();
        c.eval();
        c.check(ok && nv == (double)sc.g->get_all_variables().size() && nf == (double)sc.g->get_all_factors().size() && nr == m && nx == n, "structure",
                str(t, " instead of ", sc.g->get_all_variables().size(), " ", sc.g->get_all_factors().size(), " ", m, " ", n));
    }

    static void jacobian(Ctx& c, Scene& sc, bool detailed)
    {
        // assembled here, from the factors
        std::map<Variable *, int> col;
        int n = 0, m = 0;
        for (auto& v : sc.g->get_all_variables()) {
            bool ok = false;
            auto pl = sc.g->variable_placement(v->id(), ok);
            if (v->is_constant()) continue;
            col[v.get()] = pl.index;
            n += v->size();
        }
        auto fs = sc.g->get_all_factors();
        for (auto& f : fs)
            m += f->residual_size();
        MatrixXd J = MatrixXd::Zero(m, n);
        VectorXd r = VectorXd::Zero(m);
        for (auto& f : fs) {
            bool ok = false;
            int row = sc.g->factor_placement(f->id(), ok).residual_index;
            VectorXd e = f->compute_residual();
            r.segment(row, e.size()) = e;
            std::vector<MatrixXd> B;
            f->compute_jacobians(B);
            auto vs = f->variables();
            for (size_t j = 0; j < vs.size(); j++)
                if (B[j].size() && col.count(vs[j])) J.block(row, col[vs[j]], B[j].rows(), B[j].cols()) += B[j];
        }
        std::string t = captured([&] { sc.g->print_jacobian_and_residual(detailed); });
        auto ctx = [&]() { return str(t, " for ", J.rows(), "x", J.cols(), " of ", sc.spec.describe()); };
        c.eval();
        size_t p = t.find("Jacobian:");
        if (!c.check(p != std::string::npos, "jacobian-heading", ctx())) return;
        c.check(isNumbers(t.substr(p, t.find('\n', p) - p), {(double)J.rows(), (double)J.cols()}) ||
                    t.substr(p, t.find('\n', p) - p).find(str(J.rows(), " x ", J.cols())) != std::string::npos,
                "jacobian-size", ctx());
        double x = -1;
        c.check(after(t, "Residual norm", x) && same(x, r.norm()), "residual-norm", str(r.norm(), ctx()));
        std::set<int> zero, listed;
        for (int i = 0; i < J.cols(); i++) {
            double n = J.col(i).norm();
            if (n < 0.99e-12) zero.insert(i);
            else if (n < 1.01e-12) return;
        }
        for (size_t q = t.find("param "); q != std::string::npos; q = t.find("param ", q + 1))
            listed.insert(atoi(t.c_str() + q + 6));
        c.check(zero == listed, "near-zero-columns", ctx());
        if (zero.size()) c.count("near-zero-columns");
        if (J.size() && J.allFinite()) {
            Eigen::JacobiSVD<MatL> svd(J.cast<L>());
            VecL sv = svd.singularValues();
            L top = sv[0], thr = top * 2.220446049250313e-16L * (L)std::min(J.rows(), J.cols());
            int rank = 0;
            bool unclear = top == 0;
            for (int i = 0; i < sv.size(); i++) {
                rank += sv[i] > thr;
                unclear |= sv[i] > thr * 1e-3L && sv[i] < thr * 1e4L;
                unclear |= sv[i] > 0 && sv[i] <= thr; // rounding noise decides
            }
            L cond = top / sv.tail(1)[0];
            if (!unclear) {
                c.check(after(t, "rank", x) && x == rank, "rank", str(rank, ctx()));
                c.count(rank == std::min(J.rows(), J.cols()) ? "rank-full" : "rank-deficient");
                if (cond < 1e8L) {
                    c.check(after(t, "Condition estimate", x) && same(x, (double)cond, 1e-4), "condition", str((double)cond, ctx()));
                    c.count("condition-compared");
                }
            } else
                c.count("rank-unclear");
        }
        size_t a = t.find("Full Jacobian:"), b = t.find("Full Residual:");
        c.check(detailed == (a != std::string::npos && b != std::string::npos), "detail-switch", ctx());
        if (detailed && a != std::string::npos && b != std::string::npos && a < b) {
            auto near = [&](const std::string& s, const std::vector<double>& want) {
                auto g = numbers(s);
                if (g.size() != want.size()) return false;
                for (size_t i = 0; i < g.size(); i++)
                    if (!same(g[i], want[i], 1.01e-3)) return false;
                return true;
            };
            c.check(near(t.substr(a, b - a), rows(J)), "printed-jacobian", ctx());
            c.check(near(t.substr(b), rows(r)), "printed-residual", ctx());
            c.count("matrices-compared");
        }
    }

    static void factorTest(Ctx& c, Scene& sc, const std::set<size_t>& wrong)
    {
        auto before = sc.states();
        bool ret = false;
        std::string t = captured([&] { ret = sc.g->detailed_factor_test(1e-4, true); });
        auto fs = sc.g->get_all_factors();
        auto ctx = [&]() { return str(t, " of ", sc.spec.describe()); };
        c.eval();
        std::set<size_t> named;
        for (size_t i = 0; i < fs.size(); i++)
            if (t.find(str("--- Factor ", i, " (", fs[i]->name(), ", ID=", fs[i]->id(), ") ---")) != std::string::npos) named.insert(i);
        size_t headings = 0;
        for (size_t q = t.find("--- Factor "); q != std::string::npos; q = t.find("--- Factor ", q + 5))
            headings++;
        double a = -1, b = -1;
        bool ok = after(t, "Factors passed:", a) && after(t, "Factors failed:", b);
        c.check(ok && a + b == (double)fs.size() && b == (double)headings && headings == named.size(), "factor-test-counts", ctx());
        for (size_t i : wrong)
            c.check(named.count(i) == 1, "wrong-factor-not-named", str("factor ", i, " ", ctx()));
        c.check((b == 0) == ret && (t.find("ALL FACTORS PASSED") != std::string::npos) == ret, "factor-test-verdict", ctx());
        c.count(ret ? "factor-test-passed" : "factor-test-failed");
        // the same numbers without the details
        bool ret2 = false;
        std::string t2 = captured([&] { ret2 = sc.g->detailed_factor_test(1e-4, false); });
        double a2 = -1, b2 = -1;
        bool ok2 = after(t2, "Factors passed:", a2) && after(t2, "Factors failed:", b2);
        if (t2.find("Factors passed:") != std::string::npos)
            c.check(ok2 && a2 + b2 == (double)fs.size() && b2 >= (double)wrong.size() && (b2 == 0) == ret2, "factor-test-brief-counts", str(t2, ctx()));
        c.check(t2.find("ALL FACTORS PASSED") == std::string::npos || ret2, "factor-test-brief-verdict", str(t2, ctx()));
        auto now = sc.states();
        for (size_t i = 0; i < now.size(); i++) // (to the rounding of the value vector of a rotation)
            c.check(now[i].dist(before[i]) <= 1e-7L * (1 + (L)before[i].v.norm()), "factor-test-changes-variables", ctx());
    }

    static void covariances(Ctx& c, Scene& sc, SparseOptimizer& opt)
    {
        std::string t = captured([&] { opt.print_all_covariances(); });
        std::vector<std::string> part;
        for (size_t q = t.find("variable: "); q != std::string::npos;) {
            size_t n = t.find("variable: ", q + 1);
            part.push_back(t.substr(q + 10, n == std::string::npos ? n : n - q - 10));
            q = n;
        }
        c.eval();
        auto vs = sc.g->get_all_variables();
        if (!c.check(part.size() == vs.size(), "covariances-count", t)) return;
        for (size_t i = 0; i < vs.size(); i++) {
            bool ok = false;
            MatrixXd P = opt.estimate_covariance(vs[i].get(), ok);
            size_t nl = part[i].find('\n');
            std::string head = part[i].substr(0, nl), body = nl == std::string::npos ? "" : part[i].substr(nl);
            c.check(head == vs[i]->name(), "covariance-heading", part[i]);
            if (vs[i]->is_constant()) {
                c.check(body.find("constant") != std::string::npos && numbers(body).empty(), "covariance-of-constant", part[i]);
                c.count("covariance:constant");
            } else if (!ok) {
                c.check(body.find("invalid") != std::string::npos && numbers(body).empty(), "covariance-invalid", part[i]);
                c.count("covariance:invalid");
            } else {
                c.check(isNumbers(body, rows(P)), "covariance-values", str(part[i], " for ", mstr(P)));
                c.count("covariance:printed");
            }
        }
    }

    void run_case(Ctx& c)
    {
        Rng& r = c.rng;
        GenOpt o = genOpt(r);
        o.size = r.range(0, 6);
        largeCase(c, o, 200, 20, 50);
        o.p2b_local = true;
        o.planes = r.p(0.3);
        o.perturb = r.p(0.6) ? r.logu(1e-3, 0.2) : r.uni(0.2, 2);
        o.noise = r.p(0.3) ? 0 : r.logu(0.1, 10);
        Spec s = genProblem(r, o).spec;
        // some unknowns that nothing determines
        if (r.p(0.25)) {
            std::set<int> used;
            for (auto& v : s.vars)
                used.insert(v.id);
            VK k = (VK)r.range(0, 6);
            int id;
            do
                id = r.range(-500, 500);
            while (used.count(id));
            s.vars.push_back(genVar(r, k, id));
        }
        Scene sc;
        sc.spec = s;
        sc.g = std::make_shared<FactorGraph>();
        for (auto& v : s.vars)
            sc.vars.push_back(makeVar(v));
        for (size_t i = 0; i < s.vars.size(); i++)
            if (s.vars[i].in_graph) sc.g->add_variable(sc.vars[i]);
        // probes: note the state (residual norm) at every Jacobian evaluation and let the simulated time pass
        struct Note {
            double norm;
            VectorXd bits;
        };
        std::vector<Note> jac;
        bool active = false, inside = false;
        long long tJ = 0, tR = 0;
        std::set<size_t> seen;
        std::vector<std::shared_ptr<Factor>> plain;
        std::set<size_t> wrong;
        bool corrupt = false;
        for (auto& f : s.facs)
            plain.push_back(makeFac(f, sc.vars));
        auto norm = [&]() {
            inside = true;
            double q = 0;
            for (auto& f : plain)
                q += f->compute_residual().squaredNorm();
            inside = false;
            return std::sqrt(q);
        };
        for (size_t k = 0; k < s.facs.size(); k++) {
            auto w = std::make_shared<FaultFactor>(plain[k]);
            w->onRes = [&](VectorXd&) {
                if (!active || inside) return;
                long long d = 1000LL * r.range(1, 900);
                tR += d, g_now += d;
            };
            w->onJac = [&, k](std::vector<MatrixXd>& B) {
                if (corrupt && wrong.count(k))
                    for (auto& m : B)
                        if (m.size()) m(0, 0) = r.p(0.2) ? std::nan("") : m(0, 0) + 3 + 2 * m.cwiseAbs().maxCoeff();
                if (!active || inside) return;
                if (seen.empty() || seen.count(k)) {
                    seen.clear();
                    jac.push_back({norm(), sc.bits()});
                }
                seen.insert(k);
                long long d = 1000LL * r.range(1, 900);
                tJ += d, g_now += d;
            };
            sc.facs.push_back(w);
            sc.g->add_factor(w);
        }
        Layout lay = layout(s, sc.states());
        if (lay.m < lay.n) throw Skip(); // refused
        sc.g->finalize_structure();
        Hash h;
        h.u(s.hash());
        structure(c, sc);
        variables(c, sc);
        if (sc.bits().allFinite()) jacobian(c, sc, r.p(0.5));
        for (size_t k = 0; k < s.facs.size(); k++) {
            bool free = false;
            for (auto *v : sc.facs[k]->variables())
                free |= !v->is_constant();
            if (free && r.p(0.15)) wrong.insert(k);
        }
        corrupt = r.p(0.5);
        factorTest(c, sc, corrupt ? wrong : std::set<size_t>());
        corrupt = false;

        SparseOptimizer opt;
        const int runs = r.range(1, 3);
        OptimizerSettings q;
        for (int run = 0; run < runs; run++) {
            if (run == 0 || r.p(0.6)) {
                q = genSettings(r);
                q.max_num_iterations = (size_t)r.range(0, 8);
                q.verbose = r.p(0.85);
                if (q.method == OptimizerMethod::LevenbergMarquardt && r.p(0.3)) q.learning_rate = r.uni(1, 2.5);
                opt.setup(sc.g, q);
            }
            double n0 = norm();
            if (!std::isfinite(n0)) break;
            jac.clear();
            seen.clear();
            tJ = tR = 0;
            g_now = 0;
            active = true;
            g_fake = true;
            std::string t;
            try {
                t = captured([&] { opt.optimize(); });
            } catch (...) {
                g_fake = false;
                throw;
            }
            g_fake = false;
            active = false;
            if (!q.verbose) continue;
            const OptimizerStats& S = opt.current_stats_;
            double n1 = norm();
            bool lm = q.method == OptimizerMethod::LevenbergMarquardt;
            auto ctx = [&]() { return str(" in run ", run, ": ", t.substr(0, 6000), " of ", s.describe()); };
            c.eval();
            c.count(lm ? "log:LM" : "log:GN");
            size_t sum = t.find("Summary ===");
            if (!c.check(sum != std::string::npos, "no-summary", ctx())) continue;
            double x = -1;
            c.check((t.find(lm ? "Levenberg-Marquardt" : "Gauss-Newton") != std::string::npos) && t.find(lm ? "Gauss-Newton" : "Levenberg-Marquardt") == std::string::npos,
                    "log-method", ctx());
            auto is = [&](const char *label, double want, size_t from, size_t to, double rel = 1.01e-5, double abs = 0) {
                double y = std::nan("");
                bool ok = after(t, label, y, from, to) && (same(y, want, rel) || std::fabs(y - want) <= abs);
                c.check(ok, str("log:", label), str(y, " instead of ", want, ctx()));
            };
            size_t body = std::min(t.find("####"), sum);
            is("Max iterations", (double)q.max_num_iterations, 0, body);
            is("Initial residual norm", n0, 0, body);
            is("Initial chi²", n0 * n0, 0, body);
            is("Step tolerance", q.step_tolerance, 0, body);
            is("Residual tolerance", q.residual_tolerance, 0, body);
            is("Learning rate", q.learning_rate, 0, body);
            is("Total iterations", S.current_iteration, sum, std::string::npos);
            bool consistent = same(S.residual_norm, n1, 1e-9) || std::fabs(S.residual_norm - n1) < 1e-9; // P13's matter
            if (consistent) {
                is("Final residual norm", n1, sum, std::string::npos, 1.01e-5, 1e-9);
                is("Final chi²", n1 * n1, sum, std::string::npos, 2e-5, 1e-12);
                is("Residual improvement", n0 - n1, sum, std::string::npos, 2e-5, 1e-9 * (1 + n0));
                if (n0 > 1e-3) is("Relative improvement", (n0 - n1) / n0 * 100, sum, std::string::npos, 2e-5, 1e-6);
            }
            is("Final step norm", S.delta_norm, sum, std::string::npos);
            is("Status", (int)S.status, sum, std::string::npos);
            c.check((t.find("Optimization SUCCESS", sum) != std::string::npos) == S.valid && (t.find("Optimization FAILED", sum) != std::string::npos) == !S.valid, "log-verdict",
                    ctx());
            // (the first evaluation of the residual is not counted in)
            c.check(after(t, "Total time", x, sum) && x <= (double)g_now * 1e-9 * (1 + 1e-5) && x >= (double)tJ * 1e-9 * (1 - 1e-5), "log-total-time", str(x, " of ", (double)g_now * 1e-9, ctx()));
            is("jacobian:", (double)tJ * 1e-3, sum, std::string::npos);
            if (run && tJ) c.count("timed-again");
            double tm = -1;
            c.check(after(t, "residual:", tm, sum) && tm <= (double)tR * 1e-3 * (1 + 1e-5), "log-residual-time", str(tm, " of ", (double)tR * 1e-3, ctx()));
            // the summary of every iteration
            size_t k = 0, pos = 0;
            while (true) {
                size_t p = t.find("] Iteration ", pos);
                if (p == std::string::npos) break;
                pos = p + 1;
                size_t e = t.find("] Iteration ", pos);
                e = std::min(e, sum);
                is("Iteration", (double)(k + 1), p, e);
                if (k < jac.size()) {
                    is("Initial residual norm", jac[k].norm, p, e, 1.01e-5, 1e-9);
                    double nxt = k + 1 < jac.size() ? jac[k + 1].norm : n1;
                    if (std::isfinite(nxt)) {
                        is("Final residual norm", nxt, p, e, 1.01e-5, 1e-9);
                        is("chi²", nxt * nxt, p, e, 2e-5, 1e-12);
                    }
                    if (lm) {
                        bool moved = k + 1 < jac.size() ? nxt < jac[k].norm : n1 < jac[k].norm;
                        bool yes = t.substr(p, e - p).find("accepted:         YES") != std::string::npos;
                        if (std::fabs(nxt - jac[k].norm) > 1e-9 * (1 + nxt)) c.check(yes == moved, "log-accepted", ctx());
                        // every damping that was tried is reported
                        size_t from = k == 0 ? 0 : t.rfind("] Iteration ", p - 1);
                        if (from == std::string::npos) from = 0;
                        long tried = 0;
                        for (const char *w : {"[LM] Step accepted", "[LM] Step rejected", "[LM] Factorization failed", "[LM] Hessian is", "[LM] Solve failed"})
                            for (size_t z = t.find(w, from); z != std::string::npos && z < p; z = t.find(w, z + 1))
                                tried++;
                        is("LM attempts", (double)tried, p, e);
                    }
                    c.count("iteration-summaries");
                }
                k++;
            }
            c.check(k <= jac.size() && (int)k == S.current_iteration, "iteration-summaries", str(k, " summaries, ", jac.size(), " iterations", ctx()));
            h.u(jac.size());
            h.d(n1);
        }
        if (sc.bits().allFinite() && std::isfinite(norm())) {
            if (r.p(0.7)) covariances(c, sc, opt);
            if (r.p(0.5)) variables(c, sc);
            if (r.p(0.5)) jacobian(c, sc, r.p(0.5));
        }
        c.cover(h.h);
        if (c.want_sample()) c.sample(str(runs, " runs on ", s.describe()));
    }
} // namespace vp
