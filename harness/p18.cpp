// P18: results do not depend on ids, insertion order, world frame, units of the weights or logging.
#include "userfac.hpp"
#include <climits>

namespace vp
{
    bool inDomain(const FacSpec& f, const std::vector<RVar>& st); // gen.cpp
    const char *kProperty = "P18";
    long n_cases(bool t) { return t ? 60000 : 10000; }

    // ---- how each variable changes when the world is moved by (R, t) in space and (a, t2) in the plane
    enum Kind { FIXED, POINT, VECTOR, DIFF2, POSE3, POSE2, PLANEK, IRK };
    struct Move {
        M3L R = M3L::Identity();
        V3L t = V3L::Zero();
        L a = 0;
        Eigen::Matrix<L, 2, 1> t2 = Eigen::Matrix<L, 2, 1>::Zero();
        Eigen::Matrix<L, 2, 2> R2() const
        {
            Eigen::Matrix<L, 2, 2> m;
            m << std::cos(a), -std::sin(a), std::sin(a), std::cos(a);
            return m;
        }
        VecL point(VecL v) const
        {
            v = vec(v);
            if (v.size() == 3) v += t;
            else if (v.size() == 2) v += t2;
            return v;
        }
        VecL vec(VecL v) const
        {
            if (v.size() == 3) v = (R * v).eval();
            else if (v.size() == 2) v = (R2() * v).eval();
            return v;
        }
    };
    static std::vector<Kind> kinds(const Spec& s)
    {
        std::vector<Kind> k(s.vars.size(), FIXED);
        for (size_t i = 0; i < s.vars.size(); i++)
            switch (s.vars[i].k) {
            case GEN:
            case LM: k[i] = POINT; break;
            case POSE: k[i] = POSE3; break;
            case P2: k[i] = POSE2; break;
            case PLANE: k[i] = PLANEK; break;
            case IR: k[i] = IRK; break;
            default: break;
            }
        for (auto& f : s.facs) {
            if (f.k == GB || f.k == LV) k[f.v[2]] = VECTOR;
            if (f.k == PPB) k[f.v[2]] = f.local ? FIXED : VECTOR;
            if (f.k == P2B) k[f.v[2]] = DIFF2;
        }
        return k;
    }
    static RVar moved(const RVar& x, Kind k, const Move& m)
    {
        RVar y = x;
        switch (k) {
        case POINT: y.v = m.point(x.v); break;
        case VECTOR: y.v = m.vec(x.v); break;
        case DIFF2: y.v.head(2) = m.R2() * x.v.head(2); break;
        case POSE3:
            y.v = m.point(x.v);
            y.R = x.R * m.R.transpose();
            break;
        case POSE2:
            y.v.head(2) = m.R2() * x.v.head(2) + m.t2;
            y.v[2] = refWrap(x.v[2] + m.a);
            break;
        case PLANEK: y.v.head(3) = m.R * x.v.head(3); break; // (moves with planes are rotations)
        case IRK:
            y.org = m.R * x.org + m.t;
            y.brg = m.R * x.brg;
            break;
        default: break;
        }
        return y;
    }
    // the matching change of a covariance
    static MatL lift(Kind k, int n, const Move& m)
    {
        MatL A = MatL::Identity(n, n);
        if ((k == POINT || k == VECTOR || k == POSE3 || k == PLANEK) && n >= 3 && (n == 3 || k != POINT)) A.topLeftCorner(3, 3) = m.R;
        if (k == POSE2 || k == DIFF2 || ((k == POINT || k == VECTOR) && n == 2)) A.topLeftCorner(2, 2) = m.R2();
        if ((k == POINT || k == VECTOR) && n > 3) A.setIdentity();
        return A;
    }
    static Spec movedSpec(const Spec& s, const Move& m)
    {
        Spec o = s;
        auto k = kinds(s);
        auto st = initialStates(s);
        for (size_t i = 0; i < s.vars.size(); i++)
            setInit(o.vars[i], moved(st[i], k[i], m));
        for (auto& f : o.facs) {
            Kind q = k[f.v[0]];
            switch (f.k) {
            case GP:
                if (q == POINT) f.p = m.point(f.p.cast<L>()).cast<double>();
                if (q == VECTOR) f.p = m.vec(f.p.cast<L>()).cast<double>();
                if (q == DIFF2) f.p.head(2) = (m.R2() * f.p.head(2).cast<L>()).cast<double>();
                break;
            case PPP: f.p = m.point(f.p.cast<L>()).cast<double>(); break;
            case POP: f.p = refLog(refExp(f.p.cast<L>()) * m.R.transpose()).cast<double>(); break;
            case P2P:
                f.p.head(2) = (m.R2() * f.p.head(2).cast<L>() + m.t2).cast<double>();
                f.p[2] = (double)refWrap((L)f.p[2] + m.a);
                break;
            case PL:
                if (f.p.size() == 3) f.p = m.point(f.p.cast<L>()).cast<double>();
                break;
            case PLP: f.p.head(3) = (m.R * f.p.head(3).cast<L>()).cast<double>(); break;
            default: break;
            }
        }
        return o;
    }

    struct Out {
        double c0 = 0, c1 = 0;
        OptimizerStatus status = OptimizerStatus::RUNNING;
        bool valid = false, fin = false;
        int its = 0;
        std::vector<RVar> st;
        std::vector<MatrixXd> cov;
        std::vector<char> covOk;
        VectorXd bits;
    };
    static Out solve(const Spec& s, OptimizerSettings q)
    {
        Out o;
        Scene sc = build(s);
        o.c0 = sc.g->compute_full_residual_vector().squaredNorm();
        SparseOptimizer opt;
        opt.setup(sc.g, q);
        opt.optimize();
        o.status = opt.current_stats_.status;
        o.valid = opt.current_stats_.valid;
        o.its = opt.current_stats_.current_iteration;
        o.c1 = sc.g->compute_full_residual_vector().squaredNorm();
        o.fin = finite(sc);
        o.st = sc.states();
        o.bits = sc.bits();
        opt.prepare_to_estimate_covariances();
        for (auto& v : sc.vars) {
            bool ok = false;
            o.cov.push_back(opt.estimate_covariance(v.get(), ok));
            o.covOk.push_back(ok);
        }
        return o;
    }

    static L leastInformation(const Spec& s, const std::vector<RVar>& st)
    {
        MatL J = refJacobian(s, st);
        Eigen::SelfAdjointEigenSolver<MatL> es(J.transpose() * J);
        return std::max<L>(0, es.eigenvalues().minCoeff());
    }

    void run_case(Ctx& c)
    {
        Rng& r = c.rng;
        GenOpt o = genOpt(r);
        o.size = r.range(2, 8);
        largeCase(c, o, 200, 20, 40);
        // only library results are compared with each other here; a Pose2DBetween in the local frame is not covariant
        // with the world (see known_findings.json)
        o.p2b_local = c.idx % 5 != 3 && r.p(0.5);
        o.planes = o.fam == F_3D && r.p(0.3);
        o.noise = r.p(0.3) ? 0 : r.logu(0.05, 1);
        o.perturb = r.logu(0.003, 0.06);
        Problem P = genProblem(r, o);
        Spec s = P.spec;
        bool plane = false, ct = false;
        for (auto& v : s.vars)
            plane |= v.k == PLANE;
        for (auto& f : s.facs)
            ct |= f.k == CT;
        auto st0 = initialStates(s);
        for (auto& f : s.facs)
            if (!inDomain(f, st0)) throw Skip();
        bool freePlane = false;
        for (auto& v : s.vars)
            freePlane |= v.k == PLANE && !v.c;
        OptimizerSettings q;
        bool lm = freePlane || r.p(0.4);
        q.method = lm ? OptimizerMethod::LevenbergMarquardt : OptimizerMethod::GaussNewton;
        q.max_num_iterations = (size_t)(r.p(0.5) ? r.range(1, 4) : 100);
        q.step_tolerance = 1e-10;
        q.residual_tolerance = 0;
        q.initial_lambda = r.logu(1e-5, 1e-2);
        q.max_lambda = 1e10;
        q.verbose = false;
        Out base;
        try {
            base = solve(s, q);
        } catch (const std::runtime_error&) {
            throw Skip(); // ended where a factor has no value
        }
        if (!base.fin || !base.valid || base.status != OptimizerStatus::SUCCESS) throw Skip();
        for (auto& f : s.facs)
            if (!inDomain(f, base.st)) throw Skip();
        L cond = refCondition(s, base.st);
        if (!freePlane && cond > 1e7L) throw Skip();
        const int variant = (int)(c.idx % 5);
        static const char *vn[] = {"ids", "order", "logging", "world-frame", "sigma-scale"};
        Spec t = s;
        std::vector<int> where(s.vars.size()); // variable i of s is where[i] of t
        for (size_t i = 0; i < where.size(); i++)
            where[i] = (int)i;
        OptimizerSettings q2 = q;
        Move mv;
        double scale = 1;
        bool exactPath = true;
        auto kd = kinds(s);
        if (variant == 0) {
            std::set<int> a, b;
            for (auto& v : t.vars) {
                do v.id = r.p(0.3) ? r.range(-50, 50) : r.p(0.05) ? (r.p(0.5) ? INT_MAX : INT_MIN) : (int)r.u64();
                while (!a.insert(v.id).second);
            }
            for (auto& f : t.facs) {
                do f.id = r.p(0.3) ? r.range(-50, 50) : r.p(0.05) ? (r.p(0.5) ? INT_MAX : INT_MIN) : (int)r.u64();
                while (!b.insert(f.id).second);
            }
        } else if (variant == 1) {
            std::vector<int> perm(s.vars.size());
            for (size_t i = 0; i < perm.size(); i++)
                perm[i] = (int)i;
            r.shuffle(perm);
            for (size_t k = 0; k < perm.size(); k++) {
                t.vars[k] = s.vars[perm[k]];
                where[perm[k]] = (int)k;
            }
            for (auto& f : t.facs)
                for (auto& v : f.v)
                    v = where[v];
            r.shuffle(t.facs);
        } else if (variant == 2) {
            q2.verbose = true;
        } else if (variant == 3) {
            if (ct) throw Skip();
            mv.R = refExp(V3L(Vector3d(genRotvec(r)).cast<L>()));
            L far = (L)(r.p(0.15) ? r.logu(100, 1e6) : r.p(0.2) ? 100 : 5);
            if (far > 100) c.count("world-frame-far");
            if (!plane)
                for (int i = 0; i < 3; i++)
                    mv.t[i] = far * (L)r.n();
            mv.a = (L)r.uni(-3.14159, 3.14159);
            mv.t2 << far * (L)r.n(), far * (L)r.n();
            t = movedSpec(s, mv);
        } else {
            // the weights may be in any unit, short of the information falling below the documented smallest pivot (1e-14)
            const L least = layout(s, st0).n ? leastInformation(s, base.st) : 1;
            const double most = (double)std::sqrt(least / 1e-12L);
            const bool wide = most > 60 && r.p(0.5);
            scale = wide ? r.logu(1e-6, std::min(1e7, most)) : r.logu(0.02, 50);
            if (scale > most && !freePlane) throw Skip();
            if (wide) c.count(scale < 0.02 ? "sigma-scale-tiny" : scale > 50 ? "sigma-scale-huge" : "sigma-scale-wide");
            for (auto& f : t.facs) {
                f.s1 *= scale;
                f.s2 *= scale;
            }
            exactPath = !lm || wide || r.p(0.6);
            if (lm && exactPath) { // the same problem to the last step if the damping is in the same unit
                if (q.max_num_iterations > 50) q.max_num_iterations = 20;
                q.initial_lambda = std::max(q.initial_lambda, 1e-4);
                if (wide) { // clear of the smallest damping (1e-12) in either unit
                    q.max_num_iterations = std::min<size_t>(q.max_num_iterations, 4);
                    q.initial_lambda = std::max(q.initial_lambda, 1e-11 * std::pow(q.lambda_down_factor, -(double)q.max_num_iterations) * scale * scale);
                    q.max_lambda = std::max(q.max_lambda, 1e8 * q.initial_lambda);
                }
                q2 = q;
                q2.initial_lambda = q.initial_lambda / (scale * scale);
                q2.max_lambda = q.max_lambda / (scale * scale);
                base = solve(s, q);
                if (!base.fin || !base.valid || base.status != OptimizerStatus::SUCCESS) throw Skip();
                for (auto& f : s.facs)
                    if (!inDomain(f, base.st)) throw Skip();
            }
            if (!exactPath && q.max_num_iterations < 50) throw Skip();
            if (!exactPath) {
                // the two damped paths must lead to the same minimum: a start near enough for plain Gauss-Newton
                if (freePlane) throw Skip();
                OptimizerSettings g = q;
                g.method = OptimizerMethod::GaussNewton;
                Out gn = solve(s, g);
                if (!gn.fin || !gn.valid || gn.status != OptimizerStatus::SUCCESS || gn.its > 15) throw Skip();
                L d = 0;
                for (size_t i = 0; i < s.vars.size(); i++)
                    d = std::max(d, gn.st[i].dist(base.st[i]));
                if (d > 1e-6L || o.noise > 0.3 || base.c0 > 2000) throw Skip();
            }
        }
        Out got = solve(t, q2);
        auto ctx = [&]() {
            return str(vn[variant], lm ? " LM" : " GN", " max ", q.max_num_iterations, " status ", (int)base.status, "/", (int)got.status, " iterations ", base.its, "/", got.its, " cost ",
                       base.c0, " -> ", base.c1, " / ", got.c0, " -> ", got.c1, " scale ", scale, " cond ", (double)cond, " of ", s.describe());
        };
        c.eval();
        c.count(str(vn[variant], lm ? ":LM" : ":GN"));
        double k2 = scale * scale;
        // the measurements of a moved world are rounded at the size of the world
        double floor = variant == 3 ? 1e-12 * (1 + (double)mv.t.norm() + (double)mv.t2.norm()) / o.sig_lo : 1e-13 / o.sig_lo;
        auto sameCost = [&](double a, double b) {
            double ra = std::sqrt(a), rb = std::sqrt(b * k2);
            return std::fabs(ra - rb) <= 1e-9 * ra + 100 * floor * std::sqrt(s.facs.size() * 3.0 + 1);
        };
        c.check(sameCost(base.c0, got.c0), str("initial-cost-differs:", vn[variant]), ctx());
        if (!c.check(got.fin && got.status == base.status && got.valid, str("status-differs:", vn[variant]), ctx())) return;
        L worst = 0;
        int wi = -1;
        for (size_t i = 0; i < s.vars.size(); i++) {
            L d = got.st[where[i]].dist(moved(base.st[i], kd[i], mv));
            if (s.vars[i].k == IR) d *= 1;
            if (d > worst) {
                worst = d;
                wi = (int)i;
            }
        }
        // at convergence the place is known to about sqrt(rounding) if the cost decides when to stop
        L tol = (1 + (L)o.pos_scale) * (freePlane ? 2e-5L : 2e-6L) + mv.t.norm() * 1e-9L + mv.t2.norm() * 1e-9L;
        c.check(worst <= tol, str("estimate-differs:", vn[variant]), str("variable ", wi >= 0 ? s.vars[wi].id : 0, " off ", (double)worst, " ", ctx()));
        c.check(sameCost(base.c1, got.c1) || (base.c1 < 1e-12 && got.c1 * k2 < 1e-12) || std::fabs(base.c1 - got.c1 * k2) < 1e-7 * (1e-6 + base.c1),
                str("final-cost-differs:", vn[variant]), ctx());
        if (variant == 2) {
            c.check(sameBits(base.bits, got.bits) && base.its == got.its && base.c1 == got.c1, "logging-changes-bits", ctx());
        }
        if (!freePlane && cond < 1e6L)
            for (size_t i = 0; i < s.vars.size(); i++) {
                int j = where[i];
                c.check(base.covOk[i] == got.covOk[j], str("covariance-validity-differs:", vn[variant]), ctx());
                if (!base.covOk[i] || !got.covOk[j]) continue;
                MatL A = lift(kd[i], (int)base.cov[i].rows(), mv);
                MatL want = A * base.cov[i].cast<L>() * A.transpose() * (L)k2;
                c.check((got.cov[j].cast<L>() - want).norm() <= 1e-4L * want.norm(), str("covariance-differs:", vn[variant]),
                        str("variable ", s.vars[i].id, " ", mstr(want), " vs ", mstr(got.cov[j]), " ", ctx()));
                c.count("covariances");
            }
        Hash h;
        h.u(s.hash());
        h.u(t.hash());
        h.u((uint64_t)variant);
        c.cover(h.h);
        if (c.want_sample()) c.sample(ctx());
    }
} // namespace vp
