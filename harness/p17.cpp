// P17: covariances are blocks of the inverse information at the current solution, and never stale.
#include "userfac.hpp"
#include "factorama/generic_between_factor.hpp"
#include "factorama/generic_prior_factor.hpp"
#include "factorama/generic_variable.hpp"

namespace vp
{
    bool inDomain(const FacSpec& f, const std::vector<RVar>& st); // gen.cpp
    const char *kProperty = "P17";
    long n_cases(bool t) { return t ? 50000 : 8000; }

    static OptimizerSettings settings(Rng& r)
    {
        OptimizerSettings q;
        q.method = r.p(0.5) ? OptimizerMethod::LevenbergMarquardt : OptimizerMethod::GaussNewton;
        q.max_num_iterations = (size_t)(r.p(0.3) ? r.range(1, 3) : 50);
        q.step_tolerance = 1e-9;
        q.residual_tolerance = r.p(0.5) ? 0 : 1e-10;
        q.initial_lambda = r.logu(1e-6, 1e2); // the damping must not show in the covariances
        q.max_lambda = 1e10;
        q.verbose = r.p(0.1);
        return q;
    }
    // all valid answers of a settled optimizer against the reference information matrix
    static bool compareAll(Ctx& c, Scene& sc, SparseOptimizer& opt, const char *when)
    {
        auto st = sc.states();
        for (auto& f : sc.spec.facs)
            if (!inDomain(f, st)) return false;
        Layout l = layout(sc.spec, st);
        if (!l.n) return false;
        L cond = refCondition(sc.spec, st);
        if (cond > 1e8L) return false;
        MatL J = refJacobian(sc.spec, st);
        MatL H = J.transpose() * J;
        MatL C = H.ldlt().solve(MatL::Identity(l.n, l.n));
        std::vector<size_t> order(sc.vars.size());
        for (size_t i = 0; i < order.size(); i++)
            order[i] = i;
        c.rng.shuffle(order);
        for (size_t i : order) {
            bool ok = c.rng.p(0.5); // must be written whatever it was
            MatrixXd P = opt.estimate_covariance(sc.vars[i].get(), ok);
            auto ctx = [&]() {
                return str(when, " variable ", vkName(sc.spec.vars[i].k), "#", sc.spec.vars[i].id, " valid ", ok, " got ", mstr(P), " cond ", (double)cond, " of ", sc.spec.describe());
            };
            if (l.col[i] < 0) {
                c.check(!ok, sc.spec.vars[i].c ? "constant-got-covariance" : "outsider-got-covariance", ctx());
                c.count(sc.spec.vars[i].c ? "constant-refused" : "outsider-refused");
                continue;
            }
            int n = st[i].dof();
            MatL ref = C.block(l.col[i], l.col[i], n, n);
            if (!ok && (double)ref.diagonal().maxCoeff() > 5e11) { // (so much is reported as unknown)
                c.count("too-large-to-report");
                continue;
            }
            if (!c.check(ok, "covariance-missing", ctx())) continue;
            c.count((double)ref.diagonal().maxCoeff() > 1e6 ? "variance-above-1e6" : "variance-ordinary");
            if (!c.check(P.rows() == n && P.cols() == n, "covariance-shape", ctx())) continue;
            c.check(P.allFinite() && P.diagonal().minCoeff() > 0 && sameBits(P, MatrixXd(P.transpose())), "covariance-form", ctx());
            L d = (P.cast<L>() - ref).norm(), tol = (1e-9L + 1e-14L * cond) * ref.norm();
            // the library works with first-derivative formulas near a rotation's cut, the reference with differences
            c.check(d <= tol * 50, "covariance-wrong", str("reference ", mstr(ref), " off ", (double)d, ctx()));
            c.eval();
            c.count(str("compared:", vkName(sc.spec.vars[i].k)));
        }
        return true;
    }

    static void noneValid(Ctx& c, Scene& sc, SparseOptimizer& opt, const char *when)
    {
        for (size_t i = 0; i < sc.vars.size(); i++) {
            bool ok = c.rng.p(0.5);
            MatrixXd P = opt.estimate_covariance(sc.vars[i].get(), ok);
            c.check(!ok, str("covariance-", when), str(mstr(P), " for ", sc.spec.vars[i].id, " of ", sc.spec.describe()));
        }
        c.count(when);
    }

    static void regular(Ctx& c)
    {
        Rng& r = c.rng;
        GenOpt o = genOpt(r);
        o.size = r.range(1, 7);
        largeCase(c, o, 150, 15, 35);
        o.p2b_local = false;
        o.noise = r.p(0.4) ? 0 : r.logu(0.05, 2);
        o.perturb = r.logu(0.005, 0.1);
        o.nice_ids = r.p(0.5); // so that successive problems share ids
        SparseOptimizer opt;
        {
            factorama::GenericVariable lone(5, VectorXd::Constant(2, 1.0));
            bool ok = true;
            opt.estimate_covariance(&lone, ok);
            c.check(!ok, "covariance-before-anything", "");
            ok = true;
            opt.estimate_covariance(nullptr, ok);
            c.check(!ok, "covariance-of-null", "");
        }
        Scene sc;
        int rounds = r.range(1, 4);
        for (int k = 0; k < rounds; k++) {
            bool fresh = k == 0 || r.p(0.5), other = k > 0 && r.p(0.4);
            if (fresh) {
                o.noise = r.p(0.4) ? 0 : r.logu(0.05, 2);
                if (other) { // the same problem entered in another order
                    regraph(sc, r);
                    c.count("another-order-same-optimizer");
                } else {
                    Spec s = genProblem(r, o).spec;
                    if (r.p(0.3)) { // covariances of any magnitude
                        double f = r.logu(1e-3, 1e5);
                        for (auto& x : s.facs)
                            x.s1 *= f, x.s2 *= f;
                        c.count(f > 1e3 ? "sigmas-times-1e3..1e5" : f < 0.1 ? "sigmas-divided" : "sigmas-scaled");
                    }
                    sc = build(s);
                }
                opt.setup(sc.g, settings(r));
                noneValid(c, sc, opt, k ? "after-setup" : "before-optimize");
                if (r.p(0.5)) {
                    opt.prepare_to_estimate_covariances();
                    noneValid(c, sc, opt, "prepared-before-optimize");
                }
            } else {
                // same objects, another estimate
                if (r.p(0.5)) {
                    opt.setup(sc.g, settings(r));
                    noneValid(c, sc, opt, "after-setup");
                }
                for (size_t i = 0; i < sc.vars.size(); i++)
                    if (!sc.vars[i]->is_constant() && r.p(0.7)) {
                        VectorXd d(sc.vars[i]->size());
                        double s = sc.spec.vars[i].k == IR ? 0.05 * sc.vars[i]->value()[0] : r.logu(1e-3, 0.1);
                        for (int j = 0; j < d.size(); j++)
                            d[j] = s * r.n();
                        sc.vars[i]->apply_increment(d);
                    }
            }
            opt.optimize();
            if (!finite(sc) || !opt.current_stats_.valid) return;
            noneValid(c, sc, opt, "not-prepared-since");
            VectorXd b0 = sc.bits();
            opt.prepare_to_estimate_covariances();
            if (!compareAll(c, sc, opt, "after optimize")) return;
            if (r.p(0.3)) {
                opt.prepare_to_estimate_covariances(); // again: no change
                compareAll(c, sc, opt, "prepared again");
            }
            bool ok = true;
            opt.estimate_covariance(nullptr, ok);
            c.check(!ok, "covariance-of-null", "");
            // a variable the graph has never heard of
            std::set<int> ids;
            for (auto& v : sc.spec.vars)
                ids.insert(v.id);
            int id = (int)r.u64();
            while (ids.count(id))
                id++;
            factorama::GenericVariable lone(id, VectorXd::Constant(r.range(1, 6), 1.0));
            ok = true;
            opt.estimate_covariance(&lone, ok);
            c.check(!ok, "outsider-got-covariance", str(id, " not in ", sc.spec.describe()));
            c.check(sameBits(b0, sc.bits()), "covariance-moved-variables", sc.spec.describe());
            Hash h;
            h.u(sc.spec.hash());
            h.u((uint64_t)k);
            h.m(b0);
            c.cover(h.h);
            c.count(fresh ? "round-fresh" : "round-again");
            if (c.want_sample()) c.sample(sc.spec.describe());
        }
    }

    // unknowns that the factors leave open must not be given an uncertainty
    static void singular(Ctx& c)
    {
        Rng& r = c.rng;
        GenOpt o = genOpt(r);
        o.size = r.range(1, 6);
        o.p2b_local = false;
        o.sig_lo = r.logu(1e-3, 0.5);
        o.sig_hi = o.sig_lo * r.uni(2, 6);
        o.pos_scale = r.uni(1, 4);
        o.noise = r.p(0.5) ? 0 : 0.2;
        o.perturb = 0.02;
        Spec s = genProblem(r, o).spec;
        // first solve a determined problem with the same optimizer, so that there is something stale to report
        SparseOptimizer opt;
        Scene first = build(s);
        bool warm = r.p(0.7);
        if (warm) {
            OptimizerSettings q = settings(r);
            opt.setup(first.g, q);
            opt.optimize();
            opt.prepare_to_estimate_covariances();
        }
        for (int k = r.range(1, 3); k > 0; k--) {
            std::vector<size_t> cand;
            for (size_t i = 0; i < s.facs.size(); i++) {
                FK fk = s.facs[i].k;
                if (fk == GP || fk == PPP || fk == POP || fk == RP || fk == P2P) cand.push_back(i);
            }
            if (cand.empty()) throw Skip();
            s.facs.erase(s.facs.begin() + (long)(cand[r.u64() % cand.size()]));
        }
        auto st = initialStates(s);
        Layout l = layout(s, st);
        VarSpec v;
        v.k = GEN;
        v.id = 700000001;
        v.init = VectorXd::Constant(2, r.n());
        s.vars.push_back(v);
        int fid = 800000000;
        for (int need = l.n + 2 - l.m; need > 0 || fid == 800000000; need -= 2) {
            FacSpec f;
            f.k = GP;
            f.id = fid++;
            f.v = {(int)s.vars.size() - 1};
            f.p = VectorXd::Constant(2, r.n());
            f.s1 = 1;
            s.facs.push_back(f);
        }
        st = initialStates(s);
        Scene sc = build(s);
        OptimizerSettings q = settings(r);
        q.initial_lambda = 1e-4;
        opt.setup(sc.g, q);
        opt.optimize();
        if (!finite(sc)) return;
        opt.prepare_to_estimate_covariances();
        st = sc.states();
        for (auto& f : s.facs)
            if (!inDomain(f, st)) throw Skip();
        l = layout(s, st);
        MatL J = refJacobian(s, st);
        MatL H = J.transpose() * J;
        Eigen::SelfAdjointEigenSolver<MatrixXd> es(H.cast<double>());
        double hi = es.eigenvalues().maxCoeff();
        std::vector<int> nul;
        for (int i = 0; i < H.cols(); i++) {
            double e = std::fabs(es.eigenvalues()[i]) / hi;
            if (e < 1e-14) nul.push_back(i);
            else if (e < 1e-4) throw Skip();
        }
        if (nul.empty() || hi > 1e9) throw Skip();
        for (size_t i = 0; i < sc.vars.size(); i++) {
            bool ok = true;
            MatrixXd P = opt.estimate_covariance(sc.vars[i].get(), ok);
            double share = 0;
            if (l.col[i] >= 0)
                for (int k : nul)
                    share += es.eigenvectors().col(k).segment(l.col[i], st[i].dof()).squaredNorm();
            auto ctx = [&]() { return str("share ", share, " got ", mstr(P), " for ", sc.spec.vars[i].id, " of ", s.describe()); };
            if (l.col[i] < 0) c.check(!ok, "constant-got-covariance", ctx());
            else if (share > 1e-4) {
                c.check(!ok, "undetermined-got-covariance", ctx());
                c.eval();
                c.count("undetermined-refused");
            }
            if (ok)
                c.check(P.allFinite() && P.rows() == P.cols() && P.diagonal().minCoeff() > 0 && (P - P.transpose()).norm() == 0, "covariance-form", ctx());
        }
        Hash h;
        h.u(s.hash());
        h.u(1);
        c.cover(h.h);
    }

    // chains of known information: sums of the variances along the way, however badly scaled
    static void chains(Ctx& c)
    {
        Rng& r = c.rng;
        const int n = r.range(1, 4), d = r.range(1, 3), lone = r.range(0, 2);
        const L ratio = r.logu(1, 1e5);
        auto sd = [&]() { return r.logu(1e-3, 1e3); };
        auto g = std::make_shared<FactorGraph>();
        std::vector<std::shared_ptr<factorama::GenericVariable>> v;
        std::vector<L> var;
        std::string txt;
        int id = r.range(-50, 50);
        for (int i = 0; i < n + lone; i++)
            v.push_back(std::make_shared<factorama::GenericVariable>(id++, VectorXd::Constant(d, r.n())));
        auto zero = std::make_shared<factorama::GenericVariable>(id++, VectorXd::Constant(d, r.n()));
        zero->set_constant(true);
        std::vector<std::shared_ptr<factorama::Factor>> fs;
        const double s0 = sd();
        fs.push_back(std::make_shared<factorama::GenericPriorFactor>(id++, v[0].get(), VectorXd::Constant(d, r.n()), s0));
        var.push_back((L)s0 * s0);
        txt = str("prior ", s0);
        for (int i = 1; i < n; i++) { // each tied to the one before
            const double s = (double)(s0 / (r.p(0.5) ? ratio : (L)r.logu(1, (double)ratio)));
            fs.push_back(std::make_shared<factorama::GenericBetweenFactor>(id++, v[(size_t)i - 1].get(), v[(size_t)i].get(), zero.get(), s));
            var.push_back(var.back() + (L)s * s);
            txt += str(" tie ", s);
        }
        for (int i = n; i < n + lone; i++) { // on their own
            const double s = (double)(s0 * (r.p(0.5) ? 1 / (L)r.logu(1, 5e5 / n) : (L)r.logu(1, (double)(1e5L / ratio))));
            fs.push_back(std::make_shared<factorama::GenericPriorFactor>(id++, v[(size_t)i].get(), VectorXd::Constant(d, r.n()), s));
            var.push_back((L)s * s);
            txt += str(" lone ", s);
        }
        std::vector<size_t> order(v.size());
        for (size_t i = 0; i < order.size(); i++)
            order[i] = i;
        r.shuffle(order);
        r.shuffle(fs);
        for (size_t i : order)
            g->add_variable(v[i]);
        g->add_variable(zero);
        for (auto& f : fs)
            g->add_factor(f);
        g->finalize_structure();
        // condition of what is inverted
        MatL H = MatL::Zero(n + lone, n + lone);
        H(0, 0) = 1 / var[0];
        for (int i = 1; i < n; i++) {
            L w = 1 / (var[(size_t)i] - var[(size_t)i - 1]);
            H(i, i) += w, H(i - 1, i - 1) += w, H(i, i - 1) -= w, H(i - 1, i) -= w;
        }
        for (int i = n; i < n + lone; i++)
            H(i, i) = 1 / var[(size_t)i];
        const L cond = H.norm() * *std::max_element(var.begin(), var.end()) * (n + lone);
        if (cond > 3e11L || *std::max_element(var.begin(), var.end()) > 1e11L) throw Skip();
        OptimizerSettings q = settings(r);
        q.verbose = false;
        SparseOptimizer opt;
        opt.setup(g, q);
        opt.optimize();
        opt.prepare_to_estimate_covariances();
        c.eval();
        c.count(cond > 1e8L ? "chain-badly-scaled" : "chain");
        for (size_t i : order) {
            bool ok = r.p(0.5);
            MatrixXd P = opt.estimate_covariance(v[i].get(), ok);
            auto ctx = [&]() { return str(" variable ", i, " of ", n, "+", lone, " ", txt, " cond ", (double)cond, " got ", mstr(P), " expected variance ", (double)var[i]); };
            if (!c.check(ok && P.rows() == d && P.cols() == d, "covariance-missing", ctx())) continue;
            L e = (P.cast<L>() - var[i] * MatL::Identity(d, d)).norm();
            c.check(e <= var[i] * (1e-9L + 1e-14L * cond), "covariance-wrong", ctx());
        }
        Hash h;
        for (L x : var)
            h.d((double)x);
        h.u((uint64_t)(n * 100 + d * 10 + lone));
        c.cover(h.h);
    }

    void run_case(Ctx& c)
    {
        if (c.idx % 12 == 4) chains(c);
        else if (c.idx % 3 == 2) singular(c);
        else regular(c);
    }
} // namespace vp
