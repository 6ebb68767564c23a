// P06: numerical Jacobians and the graph self-test have no side effects and judge right.
#include "userfac.hpp"
#include "factorama/coordinate_transform_factor.hpp"
#include "factorama/numerical_jacobian.hpp"

namespace vp
{
    const char *kProperty = "P06";
    long n_cases(bool t) { return t ? 120000 : 20000; }
    bool inDomain(const FacSpec& f, const std::vector<RVar>& st);

    // how precisely a variable can be put back: its own vector value, and what follows from it
    static L restoreTol(const RVar& x)
    {
        L t = 1e-14L;
        for (int i = 0; i < x.v.size(); i++)
            t += 1e-15L * std::fabs(x.v[i]);
        if (x.k == POSE || x.k == ROT) {
            L d = std::max(1e-12L, PIL - refLog(x.R).norm());
            t += 1e-12L + std::min(5e-9L, 4e-15L / (d * d));
        }
        return t;
    }
    static void checkRestored(Ctx& c, const std::vector<RVar>& before, const Scene& sc, const std::string& key, const std::string& what)
    {
        for (size_t i = 0; i < before.size(); i++) {
            RVar a = RVar::of(*sc.vars[i]);
            L d = a.k == IR ? std::fabs(a.v[0] - before[i].v[0]) : a.dist(before[i]);
            bool exact = before[i].c; // constants are not touched at all
            c.check(exact ? d == 0 : d <= restoreTol(before[i]), key, str("variable ", i, " moved by ", (double)d, " ", what));
            c.check(a.c == before[i].c && a.id == before[i].id, key, "constancy or id changed");
        }
    }
    // away from where central differences with a fixed step lose their accuracy
    static bool tame(const FacSpec& f, const std::vector<RVar>& st)
    {
        if (!inDomain(f, st)) return false;
        for (int i : f.v) {
            if (st[i].k == POSE || st[i].k == ROT)
                if (refLog(st[i].R).norm() > 3.0L) return false;
            if (st[i].k == IR && (st[i].v[0] < 1e-2L || st[i].v[0] > 900)) return false;
        }
        return true;
    }

    static void numeric(Ctx& c)
    {
        Rng& r = c.rng;
        FK k = (FK)((c.idx / 2) % NFK);
        const char *fn = fkName(k);
        Spec s = genFactorSpec(r, k, true);
        Scene sc;
        sc.spec = s;
        for (auto& v : s.vars)
            sc.vars.push_back(makeVar(v));
        FacSpec f = s.facs[0];
        auto fac = makeFac(f, sc.vars);
        auto st = sc.states();
        if (!inDomain(f, st)) return;
        f.legacy_local = followsLegacyLocal(f);
        s.facs[0] = f;
        VectorXd r0 = fac->compute_residual();
        std::vector<MatrixXd> J;
        if (r.p(0.5)) J.assign((size_t)r.range(0, 6), MatrixXd::Constant(2, 2, 5));
        bool own = k == CT && r.p(0.5);
        if (own) std::dynamic_pointer_cast<CoordinateTransformFactor>(fac)->compute_numerical_jacobians(J);
        else if (r.p(0.7)) ComputeNumericalJacobians(*fac, J);
        else ComputeNumericalJacobians(*fac, J, 1e-6);
        c.eval();
        c.count("numeric");
        checkRestored(c, st, sc, str(fn, ":not-restored"), s.describe());
        if (!c.check(J.size() == f.v.size(), str(fn, ":count"), s.describe())) return;
        L w = 1 / (L)std::min(f.s1, f.s2), scale = 1;
        for (int i : f.v)
            if (st[i].v.size()) scale = std::max(scale, st[i].v.cwiseAbs().maxCoeff());
        if (f.p.size()) scale = std::max(scale, (L)f.p.cwiseAbs().maxCoeff());
        if (f.k == LV) scale *= 1 + std::fabs((L)f.a);
        if (f.k == CT) scale *= 1 + std::fabs(st[f.v[2]].v[0]);
        bool ok = tame(f, st);
        L dist = 1;
        if (k == BO || k == IRB || k == BP2) dist = (st[f.v[1]].pos() - st[f.v[0]].v).norm();
        if (k == B2 || k == RB2) dist = (st[f.v[1]].v.head(2) - st[f.v[0]].v.head(2)).norm();
        dist = std::min(dist, 1.0L);
        for (size_t j = 0; j < J.size(); j++) {
            auto& v = *sc.vars[f.v[j]];
            if (v.is_constant()) {
                c.check(J[j].size() == 0, str(fn, ":constant"), s.describe());
                continue;
            }
            MatL ref = refFacJac(s, 0, st, (int)j);
            if (!c.check(J[j].rows() == ref.rows() && J[j].cols() == ref.cols(), str(fn, ":shape"), s.describe())) continue;
            if (!ok) continue;
            L m = ref.cwiseAbs().maxCoeff();
            L tol = 1e-6L * m + w * (1e-7L + 3e-9L * scale / dist) + w * 1e-11L / (dist * dist * dist);
            if (st[f.v[j]].k == IR) tol += m * std::pow(3e-6L / st[f.v[j]].v[0], 2);
            if (k == BP2) {
                MatL A = J[j].cast<L>().transpose() * J[j].cast<L>(), B = ref.transpose() * ref;
                c.check((A - B).cwiseAbs().maxCoeff() <= 4 * tol * (m + tol), str(fn, ":value"), s.describe());
            } else {
                L e = (J[j].cast<L>() - ref).cwiseAbs().maxCoeff();
                c.check(e <= tol, str(fn, ":value"), str("error ", (double)e, " tolerance ", (double)tol, " block ", j, " ", s.describe(), mstr(J[j]), mstr(ref)));
            }
            c.count("numeric-compared");
        }
        c.cover(s.hash());
        if (c.want_sample()) c.sample(str("numerical Jacobian of ", s.describe(), " first block ", mstr(J[0])));
        // a factor that throws while being differentiated
        if (r.p(0.3)) {
            FaultFactor ff(fac);
            long at = r.range(1, 6), n = 0;
            uint64_t what = r.u64();
            ff.onRes = [&](VectorXd&) {
                if (++n == at) throwSome(what);
            };
            bool threw = false;
            auto b2 = sc.states();
            try {
                ComputeNumericalJacobians(ff, J);
            } catch (const std::exception&) {
                threw = true;
            }
            if (threw) {
                checkRestored(c, b2, sc, str(fn, ":not-restored-after-throw"), s.describe());
                c.count("numeric-throw");
            }
        }
    }

    static void selftest(Ctx& c)
    {
        Rng& r = c.rng;
        GenOpt o = genOpt(r);
        o.planes = r.p(0.4);
        o.outside_consts = false;
        o.sig_lo = 0.1;
        o.p2b_local = true;
        o.size = r.range(1, 6);
        largeCase(c, o, 150, 15, 40);
        Problem P = genProblem(r, o);
        Spec s = P.spec;
        if (r.p(0.3)) s = P.spec;
        auto s0 = initialStates(s);
        for (auto& f : s.facs)
            if (!tame(f, s0)) throw Skip();
        Scene sc;
        sc.spec = s;
        sc.g = std::make_shared<FactorGraph>();
        for (auto& v : s.vars) {
            sc.vars.push_back(makeVar(v));
            if (v.in_graph) sc.g->add_variable(sc.vars.back());
        }
        std::vector<std::shared_ptr<FaultFactor>> ff;
        for (auto& f : s.facs) {
            sc.facs.push_back(makeFac(f, sc.vars));
            ff.push_back(std::make_shared<FaultFactor>(sc.facs.back()));
            if (r.p(0.5)) sc.g->add_factor(ff.back());
            else {
                sc.g->add_factor(sc.facs.back());
                ff.back() = nullptr;
            }
        }
        sc.g->finalize_structure();
        auto st = sc.states();
        double tol = r.logu(1e-4, 3e-2);
        bool verbose = r.p(0.3);
        VectorXd res = sc.g->compute_full_residual_vector();
        MatrixXd J0 = sc.g->compute_full_jacobian_matrix();
        VectorXd b0 = sc.bits();
        bool ok = sc.g->detailed_factor_test(tol, verbose);
        c.eval();
        c.count(ok ? "healthy-pass" : "healthy-fail");
        c.check(ok, "self-test:rejects-correct-graph", s.describe());
        auto unchanged = [&](const std::string& key) {
            checkRestored(c, st, sc, key, s.describe());
            VectorXd b1 = sc.bits();
            double d = (b1 - b0).cwiseAbs().maxCoeff();
            c.check(b1.size() == b0.size() && d <= 1e-9, key, str("observable state moved by ", d));
            VectorXd r1 = sc.g->compute_full_residual_vector();
            c.check((r1 - res).cwiseAbs().maxCoeff() <= 1e-7 * (1 + res.cwiseAbs().maxCoeff()), key, "residual changed");
        };
        unchanged("self-test:changes-state");
        {
            MatrixXd J1 = sc.g->compute_full_jacobian_matrix();
            c.check((J1 - J0).size() == 0 || (J1 - J0).cwiseAbs().maxCoeff() <= 1e-7 * (1 + J0.cwiseAbs().maxCoeff()),
                    "self-test:changes-state", "Jacobian changed");
        }
        c.cover(s.hash());
        if (c.want_sample()) c.sample(str("self-test of ", s.describe(), " tolerance ", tol, " passed ", ok));
        // now one injected fault
        std::vector<int> cand;
        for (size_t i = 0; i < ff.size(); i++)
            if (ff[i]) cand.push_back((int)i);
        if (cand.empty()) return;
        for (int rep = 0; rep < 4; rep++) {
            int fi = r.pick(cand);
            auto& F = *ff[fi];
            std::vector<MatrixXd> J;
            sc.facs[fi]->compute_jacobians(J);
            const auto& fv = s.facs[fi].v;
            int bj = r.range(0, (int)J.size() - 1);
            bool cst = sc.vars[fv[bj]]->is_constant();
            std::string kind;
            if (cst) {
                kind = "nonempty-constant-block";
                int rows = F.residual_size(), cols = sc.vars[fv[bj]]->size();
                F.onJac = [=](std::vector<MatrixXd>& x) { x[bj] = MatrixXd::Zero(rows, cols); };
            } else {
                const double mx = J[bj].cwiseAbs().maxCoeff();
                const double thr = std::max(1e-2, mx * tol);
                int i = r.range(0, (int)J[bj].rows() - 1), q = r.range(0, (int)J[bj].cols() - 1);
                double sgn = r.p(0.5) ? 1 : -1;
                // the tolerance is relative to the numerical Jacobian: stay clear of it
                double e = sgn * thr * (r.p(0.5) ? 1.5 : r.logu(2, 1e4));
                switch (r.range(0, 9)) {
                case 0:
                case 1:
                case 2:
                    kind = "wrong-entry";
                    F.onJac = [=](std::vector<MatrixXd>& x) { x[bj](i, q) += e; };
                    break;
                case 3:
                    kind = "nan-entry";
                    F.onJac = [=](std::vector<MatrixXd>& x) { x[bj](i, q) = std::nan(""); };
                    break;
                case 4:
                    kind = "infinite-entry";
                    F.onJac = [=](std::vector<MatrixXd>& x) { x[bj](i, q) = sgn * INFINITY; };
                    break;
                case 5:
                    kind = "extra-column";
                    F.onJac = [=](std::vector<MatrixXd>& x) { x[bj] = MatrixXd::Zero(x[bj].rows(), x[bj].cols() + 1); };
                    break;
                case 6:
                    kind = "extra-row";
                    F.onJac = [=](std::vector<MatrixXd>& x) { x[bj] = MatrixXd::Zero(x[bj].rows() + 1, x[bj].cols()); };
                    break;
                case 7:
                    kind = "empty-block";
                    F.onJac = [=](std::vector<MatrixXd>& x) { x[bj] = MatrixXd(); };
                    break;
                case 8:
                    kind = "missing-block";
                    F.onJac = [=](std::vector<MatrixXd>& x) { x.pop_back(); };
                    break;
                default:
                    kind = "extra-block";
                    F.onJac = [=](std::vector<MatrixXd>& x) { x.push_back(MatrixXd::Identity(2, 2)); };
                    break;
                }
            }
            bool pass = sc.g->detailed_factor_test(tol, r.p(0.3));
            F.onJac = nullptr;
            c.eval();
            c.count("fault:" + kind);
            c.check(!pass, "self-test:accepts-" + kind, str("factor ", fi, " block ", bj, " tolerance ", tol, " of ", s.describe()));
            unchanged("self-test:changes-state-on-fault");
        }
        c.check(sc.g->detailed_factor_test(tol, false), "self-test:rejects-correct-graph", "after the faults were removed; " + s.describe());
    }

    void run_case(Ctx& c)
    {
        if (c.idx % 2) numeric(c);
        else selftest(c);
    }
} // namespace vp
