// P02: analytic Jacobians are the derivatives of the residuals under increments.
#include "model.hpp"

namespace vp
{
    const char *kProperty = "P02";
    long n_cases(bool t) { return t ? 400000 : 50000; }

    bool inDomain(const FacSpec& f, const std::vector<RVar>& st); // gen.cpp: differentiable point

    static MatrixXd junk(Rng& r, int rows, int cols)
    {
        switch (r.range(0, 3)) {
        case 0: return MatrixXd::Constant(rows, cols, std::nan(""));
        case 1: return MatrixXd::Constant(rows, cols, 1e9);
        case 2: return MatrixXd::Constant(rows, cols, -3.0);
        default: return MatrixXd::Identity(rows, cols) * 17.0;
        }
    }
    static void dirty(Rng& r, std::vector<MatrixXd>& b, const std::vector<int>& dims, int rd)
    {
        int mode = r.range(0, 5);
        if (mode == 0) {
            b.clear();
            return;
        }
        if (mode == 1) { // wrong count
            b.assign((size_t)r.range(1, 7), MatrixXd());
            for (auto& m : b)
                m = junk(r, r.range(0, 7), r.range(0, 7));
            return;
        }
        b.resize(dims.size());
        for (size_t i = 0; i < b.size(); i++) {
            int t = mode == 2 ? 0 : mode == 3 ? 1 : r.range(0, 5);
            switch (t) {
            case 0: b[i] = junk(r, rd, dims[i]); break;             // right shape, wrong contents
            case 1: b[i] = junk(r, r.range(0, 8), r.range(0, 8)); break; // wrong shape
            case 2: b[i] = junk(r, dims[i], rd); break;             // transposed shape
            case 3: b[i] = junk(r, 1, rd * dims[i]); break;         // right number of entries
            case 4: b[i] = junk(r, rd, dims[i] + r.range(1, 2)); break;
            default: b[i] = MatrixXd(); break;
            }
        }
    }

    void run_case(Ctx& c)
    {
        Rng& r = c.rng;
        FK k = (FK)(c.idx % NFK);
        Spec s = genFactorSpec(r, k, true);
        Scene sc;
        sc.spec = s;
        for (auto& v : s.vars)
            sc.vars.push_back(makeVar(v));
        FacSpec f = s.facs[0];
        auto fac = makeFac(f, sc.vars);
        const char *fn = fkName(k);
        const int nv = (int)f.v.size();
        std::vector<MatrixXd> reused;
        for (int t = 0; t < 3; t++) {
            if (t > 0) {
                for (auto& v : sc.vars) {
                    if (r.p(0.3)) continue;
                    VectorXd d(v->size());
                    double e = r.p(0.5) ? r.logu(1e-6, 1e-1) : r.logu(0.1, 1);
                    for (int i = 0; i < d.size(); i++)
                        d[i] = e * r.n();
                    v->apply_increment(d);
                }
            }
            auto st = sc.states();
            s.vars.size();
            if (!inDomain(f, st)) continue;
            FacSpec g = f;
            g.legacy_local = followsLegacyLocal(f); // the frame convention is P01's business
            Spec s1 = s;
            s1.facs[0] = g;
            std::vector<MatL> ref(nv);
            std::vector<int> dims;
            for (int j = 0; j < nv; j++) {
                ref[j] = refFacJac(s1, 0, st, j);
                dims.push_back((int)ref[j].cols());
            }
            const int rd = (int)ref[0].rows();
            VecL q = g.residual(st);
            for (int pat = 0; pat < 3; pat++) {
                for (auto& v : sc.vars)
                    v->set_constant(pat == 0 ? false : r.p(0.5));
                VectorXd before = sc.bits();
                std::vector<MatrixXd> J;
                if (pat != 0 || r.p(0.5)) {
                    if (r.p(0.4)) J = reused; // what an earlier call under another pattern left
                    else dirty(r, J, dims, rd);
                }
                fac->compute_jacobians(J);
                c.eval();
                c.count(fn);
                c.check(sameBits(before, sc.bits()), str(fn, ":changed-variable"), "computing Jacobians changed a variable");
                if (!c.check((int)J.size() == nv, str(fn, ":count"), str(J.size(), " blocks for ", nv, " variables"))) continue;
                for (int j = 0; j < nv; j++) {
                    bool cst = sc.vars[f.v[j]]->is_constant();
                    std::string where = str(" block ", j, " of ", s.describe());
                    if (cst) {
                        c.check(J[j].size() == 0, str(fn, ":constant-block"), str("constant variable has a ", J[j].rows(), "x", J[j].cols(), " block", where));
                        c.count("constant-blocks");
                        continue;
                    }
                    if (!c.check(J[j].rows() == rd && J[j].cols() == dims[j], str(fn, ":shape"),
                                 str("block is ", J[j].rows(), "x", J[j].cols(), " expected ", rd, "x", dims[j], where)))
                        continue;
                    MatL Jl = J[j].cast<L>();
                    L w = (L)(1 / std::min(f.s1, f.s2));
                    if (k == BP2) {
                        MatL A = Jl.transpose() * Jl, B = ref[j].transpose() * ref[j];
                        VecL a = Jl.transpose() * fac->compute_residual().cast<L>(), b = ref[j].transpose() * q;
                        L m = ref[j].cwiseAbs().maxCoeff() + w * 1e-2L;
                        L e = (A - B).cwiseAbs().maxCoeff() / (m * m);
                        L e2 = (a - b).cwiseAbs().maxCoeff() / (m * (q.norm() + w * 1e-2L));
                        c.check(e < 1e-7L && e2 < 1e-7L, str(fn, ":value"),
                                str("Gram matrix off by ", (double)e, " gradient by ", (double)e2, where));
                    } else {
                        // rows have their own weights
                        for (int i = 0; i < rd; i++) {
                            L m = ref[j].row(i).cwiseAbs().maxCoeff();
                            L wi = w;
                            if (k == RB2 || k == P2P || k == P2B || k == PLP) {
                                bool second = (k == RB2 && i == 1) || ((k == P2P || k == P2B) && i == 2) || (k == PLP && i == 3);
                                wi = 1 / (L)(second ? f.s2 : f.s1);
                            }
                            L tol = 1e-8L * m + 2e-9L * wi;
                            if (k == BP2 || k == BO || k == IRB) tol = 1e-8L * (ref[j].cwiseAbs().maxCoeff() + 0.1L * wi);
                            for (int x = 0; x < dims[j]; x++) {
                                L d = std::fabs(Jl(i, x) - ref[j](i, x));
                                if (!(d <= tol)) {
                                    c.viol(str(fn, ":value"), str("d r", i, "/d x", x, " = ", (double)Jl(i, x), " expected ",
                                                                  (double)ref[j](i, x), where, " Jacobian ", mstr(J[j]),
                                                                  " reference ", mstr(ref[j])));
                                    i = rd;
                                    break;
                                }
                            }
                        }
                    }
                }
                reused = J;
                Hash h;
                h.u(s.hash());
                h.u((uint64_t)t * 8 + pat);
                for (auto& x : sc.vars) {
                    h.m(x->value());
                    h.u(x->is_constant());
                }
                c.cover(h.h);
                if (c.want_sample() && c.idx > 100 && pat)
                    c.sample(str(s.describe(), " -> first block ", mstr(J[0]), " reference ", mstr(ref[0])));
            }
        }
    }
} // namespace vp
