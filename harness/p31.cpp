// P31: at the edges of their domains factors answer right, saturate as documented or refuse; nobody is misled.
#include "userfac.hpp"
#include "factorama/inverse_range_variable.hpp"

namespace vp
{
    const char *kProperty = "P31";
    long n_cases(bool t) { return t ? 2000000 : 200000; }

    typedef Eigen::Matrix<L, 2, 1> V2L;
    static const L REFUSE = 1e-9L; // nearer than this a direction has no derivative

    static std::vector<MatrixXd> dirtyBlocks(Rng& r, Factor& f)
    {
        std::vector<MatrixXd> J;
        int how = r.range(0, 3);
        if (how == 1) J.resize((size_t)r.range(1, 4), MatrixXd::Constant(r.range(0, 5), r.range(0, 7), std::nan("")));
        if (how == 2)
            for (auto *v : f.variables())
                J.push_back(MatrixXd::Constant(f.residual_size(), v->size(), 1e30));
        if (how == 3) try {
                f.compute_jacobians(J);
            } catch (const std::exception&) {
            }
        return J;
    }

    struct Geo {      // what a bearing factor looks at
        VecL delta;   // from sensor to landmark, world frame
        L dist = 0;
        L rel = 0;    // relative accuracy at which doubles give delta
    };
    static Geo geometry(const FacSpec& f, const std::vector<RVar>& st)
    {
        Geo g;
        const RVar &a = st[f.v[0]], &b = st[f.v[1]];
        if (f.k == B2 || f.k == RB2) g.delta = b.v.head(2) - a.v.head(2);
        else g.delta = b.pos() - a.v;
        g.dist = g.delta.norm();
        g.rel = 1e-14L;
        if (f.k == IRB) g.rel += 4e-15L * (b.pos().norm() + b.org.norm() + 1 / b.v[0]) / std::max(g.dist, 1e-30L);
        return g;
    }

    // compares residual and Jacobian of one bearing factor with closed forms; mode: what is expected of the Jacobian
    static void judge(Ctx& c, const Spec& s, const std::vector<std::shared_ptr<Variable>>& vars, Factor& fac, const char *when)
    {
        Rng& r = c.rng;
        const FacSpec& f = s.facs[0];
        const char *fn = fkName(f.k);
        std::vector<RVar> st;
        std::vector<double> bb;
        auto bits = [&]() {
            std::vector<double> o;
            for (auto& v : vars) {
                VectorXd b = varBits(*v);
                o.insert(o.end(), b.data(), b.data() + b.size());
            }
            return VectorXd(Eigen::Map<VectorXd>(o.data(), (long)o.size()));
        };
        for (auto& v : vars)
            st.push_back(RVar::of(*v));
        const Geo g = geometry(f, st);
        const bool flat = f.k == B2 || f.k == RB2;
        auto ctx = [&]() { return str(" ", when, ", distance ", (double)g.dist, " of ", s.describe()); };
        const int n = fac.residual_size();
        VectorXd b0 = bits();
        VectorXd a = fac.compute_residual();
        VectorXd buf = VectorXd::Constant(n, std::nan(""));
        fac.compute_residual(buf);
        c.eval();
        c.check(a.size() == n && a.allFinite() && buf.allFinite(), str(fn, ":residual-not-finite"), mstr(a.transpose()) + ctx());
        c.check((a - buf).norm() <= 1e-12 * (1 + a.norm()), str(fn, ":overloads-differ"), mstr(a.transpose()) + " / " + mstr(buf.transpose()) + ctx());
        std::vector<MatrixXd> J = dirtyBlocks(r, fac);
        bool threw = false;
        try {
            fac.compute_jacobians(J);
        } catch (const std::exception& e) {
            threw = true;
        }
        c.check(sameBits(b0, bits()), str(fn, ":moved-a-variable"), ctx());
        const bool free0 = !st[f.v[0]].c, free1 = !st[f.v[1]].c;
        const L w = 1 / (L)f.s1, w2 = 1 / (L)f.s2;
        const bool sharp = g.dist > 0 && g.rel < 1e-4L; // the direction is known
        // ---- the projection factor saturates where the point is not in front
        L depth = 0;
        V3L k = V3L::Zero(), bd = V3L::Zero();
        M3L P = M3L::Zero();
        int saturated = 0; // 1 yes, 0 no, -1 too close to call
        if (!flat) {
            k = f.p.cast<L>();
            k /= k.norm();
            if (g.dist > 0) bd = st[f.v[0]].R * V3L(g.delta) / g.dist;
            depth = k.dot(bd);
            P = M3L::Identity() - k * k.transpose();
        }
        if (f.k == BP2) {
            L tol = f.a ? (L)f.a : 1e-6L;
            saturated = g.dist == 0 || depth < tol - 1e-13L ? 1 : depth > tol + 1e-13L ? 0 : -1;
            if (g.dist > 0 && g.dist < 1e-150L) saturated = -1; // (below what squares of doubles can hold)
            if (saturated < 0) return;
        }
        // ---- residual
        if (f.k == BP2 && saturated == 1) {
            c.check((a.cast<L>() - VecL::Constant(2, w)).norm() <= 1e-12L * w, "BP2:saturated-residual", mstr(a.transpose()) + ctx());
            c.count(g.dist == 0 ? "saturated-at-camera" : "saturated-behind");
        } else if (sharp && (g.dist > 1e-150L)) {
            L tol = 1e-13L + 4 * g.rel;
            if (f.k == BO || f.k == IRB)
                c.check((a.cast<L>() - w * (bd - k)).norm() <= w * tol, str(fn, ":residual"), str(mstr(a.transpose()), " expected ", mstr((w * (bd - k)).transpose()), ctx()));
            else if (f.k == BP2) {
                L want = (P * bd).norm() * w, got = a.cast<L>().norm();
                c.check(std::fabs(got - want) <= w * tol, "BP2:residual", str("norm ", (double)got, " expected ", (double)want, ctx()));
            } else {
                VecL q = f.residual(st);
                const int ai = f.k == B2 ? 0 : 1;
                const L wa = f.k == B2 ? w : w2;
                c.check(std::fabs(refWrap(((L)a[ai] - q[ai]) / wa)) <= tol + 1e-14L * std::fabs((L)f.p[ai]), str(fn, ":residual"),
                        str(mstr(a.transpose()), " expected ", mstr(q.transpose()), ctx()));
                c.check(std::fabs((L)a[ai] / wa) <= PIL + 1e-9L, str(fn, ":angle-not-wrapped"), mstr(a.transpose()) + ctx());
                if (f.k == RB2)
                    c.check(std::fabs((L)a[0] - q[0]) <= w * (tol * g.dist + 1e-15L * std::fabs((L)f.p[0])), "RB2:range", str(mstr(a.transpose()), " expected ", mstr(q.transpose()), ctx()));
            }
            c.count("residual-compared");
        }
        // ---- Jacobian: refused, saturated or right
        Hash h;
        h.u(s.hash());
        h.m(b0);
        c.cover(h.h);
        c.count(str(fn, g.dist == 0 ? ":at-sensor" : g.dist < REFUSE ? ":below-limit" : g.dist < 1e-6L ? ":tiny" : g.dist < 1e-3L ? ":small" : ":ordinary"));
        if (f.k != BP2) {
            if (g.dist < REFUSE * (1 - 1e-6L - g.rel)) {
                if (free0 || free1) {
                    c.check(threw, str(fn, ":not-refused"), str(J.size() ? mstr(J[0]) : "", ctx()));
                    if (threw) c.count("refused");
                }
                return;
            }
            if (g.dist < REFUSE * (1 + 1e-6L + g.rel)) return;
        }
        if (!c.check(!threw, str(fn, ":refused"), ctx())) return;
        if (!c.check(J.size() == 2, str(fn, ":blocks"), str(J.size(), ctx()))) return;
        for (int i = 0; i < 2; i++) {
            bool fr = i ? free1 : free0;
            int dof = st[f.v[(size_t)i]].dof();
            bool ok = fr ? J[i].rows() == n && J[i].cols() == dof : J[i].size() == 0;
            if (!c.check(ok, str(fn, ":block-shape"), str(i, ": ", J[i].rows(), "x", J[i].cols(), ctx()))) return;
            if (!c.check(J[i].allFinite(), str(fn, ":jacobian-not-finite"), str(mstr(J[i]), ctx()))) return;
        }
        if (f.k == BP2 && saturated == 1) {
            for (auto& m : J)
                c.check(m.size() == 0 || m.cwiseAbs().maxCoeff() == 0, "BP2:saturated-jacobian", str(mstr(m), ctx()));
            return;
        }
        if (!sharp || g.dist < 1e-100L) return;
        c.count("jacobian-compared");
        const L jt = 1e-11L + 50 * g.rel; // relative to the largest entry of the block
        auto same = [&](const MatrixXd& got, const MatL& want, int i) {
            for (int col = 0; col < want.cols(); col++) {
                // position and rotation columns are of different magnitude
                L sc = i == 0 ? (flat ? (col < 2 ? want.leftCols(2).norm() : want.col(2).norm()) : (col < 3 ? want.leftCols(3).norm() : want.rightCols(3).norm())) : want.norm();
                L e = (got.col(col).cast<L>() - want.col(col)).norm();
                if (!(e <= jt * sc + 1e-300L)) {
                    c.viol(str(fn, ":jacobian"), str("block ", i, " column ", col, ": ", mstr(got), " expected ", mstr(want), ctx()));
                    return;
                }
            }
        };
        if (flat) {
            L x = g.delta[0], y = g.delta[1], q = g.dist * g.dist;
            MatL lm(n, 2), po(n, 3);
            const int ai = f.k == B2 ? 0 : 1;
            const L wa = f.k == B2 ? w : w2;
            lm.row(ai) << -y / q * wa, x / q * wa;
            if (f.k == RB2) lm.row(0) << x / g.dist * w, y / g.dist * w;
            po.leftCols(2) = -lm;
            po.col(2).setZero();
            po(ai, 2) = -wa;
            // every row has a magnitude of its own
            for (int row = 0; row < n; row++) {
                MatrixXd A = free0 ? MatrixXd(J[0].row(row)) : MatrixXd(), B = free1 ? MatrixXd(J[1].row(row)) : MatrixXd();
                if (free1) same(B, lm.row(row), 1);
                if (free0 && f.k == RB2 && row == 0) c.check(A(0, 2) == 0, "RB2:jacobian", str("range depends on the heading: ", mstr(J[0]), ctx()));
                if (free0) same(A, po.row(row), 0);
            }
            return;
        }
        M3L D = (M3L::Identity() - bd * bd.transpose()) / g.dist * w;
        const M3L& R = st[f.v[0]].R;
        V3L pc = R * V3L(g.delta);
        MatL Jp(3, 6), Jl;
        Jp.leftCols(3) = -D * R;
        Jp.rightCols(3) = -D * refSkew(pc);
        if (f.k == IRB) {
            const RVar& ir = st[f.v[1]];
            Jl = D * R * (-ir.brg / (ir.v[0] * ir.v[0]));
        } else Jl = D * R;
        if (f.k != BP2) {
            if (free0) same(J[0], Jp, 0);
            // (looking along its bearing a point does not move in view: the entries are rounding of the larger ones)
            if (free1 && f.k == IRB) {
                L e = (J[1].cast<L>() - Jl).norm(), sc = D.norm() / (st[f.v[1]].v[0] * st[f.v[1]].v[0]);
                c.check(e <= (jt + 1e-15L) * sc, "IRB:jacobian", str(mstr(J[1]), " expected ", mstr(Jl), ctx()));
            } else if (free1) same(J[1], Jl, 1);
            return;
        }
        // the tangent basis is free: products that do not depend on it
        auto gram = [&](const MatrixXd& A, const MatL& a3, const MatrixXd& B, const MatL& b3, const char *what) {
            MatL got = A.cast<L>().transpose() * B.cast<L>(), want = a3.transpose() * P * b3;
            c.check((got - want).norm() <= (1e-10L + 100 * g.rel) * (a3.norm() * b3.norm()), "BP2:jacobian", str(what, ": ", mstr(got), " expected ", mstr(want), ctx()));
        };
        MatL r3 = bd * w;
        if (free0) {
            gram(J[0].leftCols(3), Jp.leftCols(3), J[0].leftCols(3), Jp.leftCols(3), "position");
            gram(J[0].rightCols(3), Jp.rightCols(3), J[0].rightCols(3), Jp.rightCols(3), "rotation");
            gram(J[0].leftCols(3), Jp.leftCols(3), J[0].rightCols(3), Jp.rightCols(3), "position-rotation");
            gram(MatrixXd(a), r3, J[0].leftCols(3), Jp.leftCols(3), "residual-position");
            gram(MatrixXd(a), r3, J[0].rightCols(3), Jp.rightCols(3), "residual-rotation");
        }
        if (free1) {
            gram(J[1], Jl, J[1], Jl, "landmark");
            gram(MatrixXd(a), r3, J[1], Jl, "residual-landmark");
        }
        if (free0 && free1) gram(J[1], Jl, J[0].rightCols(3), Jp.rightCols(3), "landmark-rotation");
    }

    static void nearSensor(Ctx& c)
    {
        Rng& r = c.rng;
        static const FK kinds[] = {BO, IRB, BP2, B2, RB2};
        FK k = kinds[(c.idx / 4) % 5];
        Spec s = genFactorSpec(r, k, false);
        FacSpec& f = s.facs[0];
        const bool flat = k == B2 || k == RB2;
        const int m = flat ? 2 : 3;
        double d = r.p(0.12) ? 0 : r.p(0.3) ? r.logu(1e-13, 1e-9) : r.p(0.2) ? 1e-9 * r.uni(0.3, 3) : r.p(0.7) ? r.logu(1e-9, 1e-3) : r.logu(1e-3, 1);
        if (k == BP2 && r.p(0.4)) d = r.logu(1e-3, 30);
        if (r.p(0.3)) s.vars[0].init.head(m).setZero(); // a sensor at the origin
        else if (r.p(0.1)) s.vars[0].init.head(m) *= 100;
        VectorXd dir(m);
        if (flat) {
            double t = r.p(0.2) ? 1.5707963267948966 * r.range(-2, 2) : r.uni(-4, 4);
            dir << std::cos(t), std::sin(t);
        } else
            dir = genUnit(r);
        auto st = initialStates(s);
        if (k == BP2 && r.p(0.7)) { // at, around, in front of and behind the limit of depth
            double tol = f.a ? f.a : 1e-6;
            double z = r.p(0.2) ? tol : r.p(0.3) ? tol * r.uni(-3, 3) : r.p(0.5) ? (r.p(0.5) ? -1 : 1) * r.logu(1e-9, 1) : r.p(0.5) ? -1 : r.uni(-1, 1);
            V3L kk = f.p.cast<L>(), q = genUnit(r).cast<L>();
            kk /= kk.norm();
            q -= kk.dot(q) * kk;
            if (q.norm() < 1e-3L) throw Skip();
            V3L b = (L)z * kk + std::sqrt(std::max(0.0L, 1 - (L)z * z)) * q / q.norm();
            dir = (st[0].R.transpose() * b).cast<double>();
        }
        if (k == IRB) { // the pose goes to the landmark
            V3L p = st[1].pos();
            auto probe = makeVar(s.vars[1]);
            Vector3d pd = dynamic_cast<InverseRangeVariable&>(*probe).pos_W(); // (as the library rounds it)
            (void)p;
            s.vars[0].init.head(3) = pd - d * dir;
        } else
            s.vars[1].init = s.vars[0].init.head(m) + d * dir;
        std::vector<std::shared_ptr<Variable>> vars;
        for (auto& v : s.vars)
            vars.push_back(makeVar(v));
        auto fac = makeFac(f, vars);
        judge(c, s, vars, *fac, "first");
        // afterwards somewhere else
        if (r.p(0.3)) {
            VectorXd x = vars[0]->value();
            x.head(m) += r.logu(1e-9, 3) * (flat ? VectorXd(genUnit(r).head(2)) : VectorXd(genUnit(r)));
            vars[0]->set_value_from_vector(x);
            judge(c, s, vars, *fac, "after moving on");
        }
        if (c.want_sample()) c.sample(str("distance ", d, " ", s.describe()));
    }

    // landmarks at great distances, down to the limit of inverse range
    static void farAway(Ctx& c)
    {
        Rng& r = c.rng;
        static const FK kinds[] = {BO, IRB, BP2, B2, RB2};
        FK k = kinds[(c.idx / 16) % 5];
        Spec s = genFactorSpec(r, k, false);
        const bool flat = k == B2 || k == RB2;
        const int m = flat ? 2 : 3;
        double d = r.logu(300, r.p(0.8) ? 1e9 : 1e14);
        if (k == IRB) s.vars[1].init[6] = r.p(0.15) ? 1e6 : d; // (saturates at 1e6)
        else {
            VectorXd dir = genUnit(r);
            if (flat) {
                double t = r.p(0.2) ? 1.5707963267948966 * r.range(-2, 2) : r.uni(-4, 4);
                dir = Eigen::Vector2d(std::cos(t), std::sin(t));
            }
            if (k == BP2 && r.p(0.7)) { // in front
                auto st = initialStates(s);
                V3L q = s.facs[0].p.cast<L>();
                q = q / q.norm() + r.logu(1e-6, 3) * genUnit(r).cast<L>();
                dir = (st[0].R.transpose() * q / q.norm()).cast<double>();
            }
            s.vars[1].init = s.vars[0].init.head(m) + d * dir / dir.norm();
        }
        std::vector<std::shared_ptr<Variable>> vars;
        for (auto& v : s.vars)
            vars.push_back(makeVar(v));
        auto fac = makeFac(s.facs[0], vars);
        c.count(str(fkName(k), d < 1e6 ? ":far" : ":very-far"));
        judge(c, s, vars, *fac, "far away");
    }

    // point-to-plane factors with distance scaling, the point at the origin of the scaling
    static void planeKink(Ctx& c)
    {
        Rng& r = c.rng;
        Spec s = genFactorSpec(r, PL, false);
        FacSpec& f = s.facs[0];
        f.scaled = true;
        f.a = r.logu(0.05, 100);
        f.p = VectorXd(3);
        double sc = r.logu(0.1, 30);
        f.p << sc * r.n(), sc * r.n(), sc * r.n();
        if (r.p(0.3)) f.p.setZero();
        double d = r.p(0.25) ? 0 : r.p(0.2) ? r.logu(1e-15, 1e-12) : r.logu(1e-12, 0.1);
        s.vars[0].init = f.p + d * genUnit(r);
        std::vector<std::shared_ptr<Variable>> vars;
        std::vector<RVar> st;
        for (auto& v : s.vars) {
            vars.push_back(makeVar(v));
            st.push_back(RVar::of(*vars.back()));
        }
        auto fac = makeFac(f, vars);
        VectorXd a = fac->compute_residual();
        std::vector<MatrixXd> J = dirtyBlocks(r, *fac);
        fac->compute_jacobians(J);
        auto ctx = [&]() { return str(" distance ", d, " of ", s.describe()); };
        c.eval();
        const V3L p = st[0].pos(), n = st[1].v.head(3), diff = p - V3L(f.p.cast<L>());
        const L w = 1 / (L)f.s1, dist = n.dot(p) + st[1].v[3], R = diff.norm(), scale = 1 + R / (L)f.a;
        const L size = 1 + p.norm() + std::fabs(st[1].v[3]);
        c.check(a.size() == 1 && std::fabs((L)a[0] - w * dist / scale) <= w * 1e-13L * size, "PL:residual", str(mstr(a), " expected ", (double)(w * dist / scale), ctx()));
        if (!c.check(J.size() == 2, "PL:blocks", ctx())) return;
        for (int i = 0; i < 2; i++) {
            if (!c.check(st[i].c ? J[i].size() == 0 : J[i].rows() == 1 && J[i].cols() == (i ? 4 : 3), "PL:block-shape", ctx())) return;
            if (!c.check(J[i].allFinite(), "PL:jacobian-not-finite", str(mstr(J[i]), ctx()))) return;
        }
        if (!st[0].c) {
            V3L got = J[0].row(0).transpose().cast<L>(), even = w * n / scale;
            L swing = w * std::fabs(dist) / (L)f.a / (scale * scale); // of the part that turns with the direction
            if (R > 2e-12L) {
                V3L want = even - w * dist / (L)f.a / (scale * scale) * diff / R;
                c.check((got - want).norm() <= 1e-12L * w * (1 + size / (L)f.a), "PL:jacobian", str(mstr(got.transpose()), " expected ", mstr(want.transpose()), ctx()));
                c.count("plane-kink-compared");
            } else {
                c.check((got - even).norm() <= swing * (1 + 1e-9L) + 1e-12L * w, "PL:jacobian-at-kink", str(mstr(got.transpose()), " around ", mstr(even.transpose()), ctx()));
                c.count("plane-kink");
            }
        }
        Hash h;
        h.u(s.hash());
        c.cover(h.h);
    }

    // angular errors near half a turn
    static void halfTurn(Ctx& c)
    {
        Rng& r = c.rng;
        static const FK kinds[] = {POP, RP, POB, P2P, P2B, B2, RB2};
        FK k = kinds[(c.idx / 4) % 7];
        Spec s = genFactorSpec(r, k, true);
        FacSpec& f = s.facs[0];
        f.local = false; // (see known_findings.json)
        double d = r.p(0.1) ? 0 : r.p(0.2) ? r.logu(1e-16, 1e-7) : r.logu(1e-7, 0.2);
        if (r.p(0.1)) d = -d; // beyond: the other way round
        const L target = PIL - (L)d;
        auto st = initialStates(s);
        V3L axis = genUnit(r).cast<L>();
        if (r.p(0.15)) axis = V3L::Unit(r.range(0, 2)) * (r.p(0.5) ? 1 : -1);
        const L sgn = r.p(0.5) ? 1 : -1;
        if (k == POP || k == RP) f.p = refLog(refExp(axis * target) * st[f.v[0]].R).cast<double>();
        else if (k == POB) {
            V3L e = f.residual(st) * (L)f.s1;
            M3L E = refExp(e), m = st[f.v[2]].R;
            const M3L cand[4] = {E * m, E.transpose() * m, m * E, m * E.transpose()};
            bool ok = false;
            for (int i = 0; i < 4 && !ok; i++) {
                RVar x = st[f.v[2]];
                x.R = cand[i];
                auto z = st;
                z[f.v[2]] = x;
                if (f.residual(z).norm() * f.s1 > 1e-9L) continue;
                ok = true;
                x.R = refExp(axis * target) * cand[i];
                setInit(s.vars[f.v[2]], x);
            }
            if (!ok) throw Skip();
        } else if (k == P2P) f.p[2] = (double)(st[f.v[0]].v[2] + sgn * target);
        else if (k == P2B) {
            auto z = st;
            z[f.v[2]].v[2] = 0;
            RVar x = st[f.v[2]];
            x.v[2] = f.residual(z)[2] * (L)f.s2 + sgn * target;
            setInit(s.vars[f.v[2]], x);
        } else {
            FacSpec g = f;
            g.fit(st);
            f.p[k == B2 ? 0 : 1] = (double)((L)g.p[k == B2 ? 0 : 1] + sgn * target);
        }
        std::vector<std::shared_ptr<Variable>> vars;
        std::vector<RVar> z;
        for (auto& v : s.vars) {
            vars.push_back(makeVar(v));
            z.push_back(RVar::of(*vars.back()));
        }
        auto fac = makeFac(f, vars);
        VecL q = f.residual(z);
        const bool rot = k == POP || k == RP || k == POB;
        const L sa = rot || k == B2 ? (L)f.s1 : (L)f.s2;
        const int ai = k == B2 ? 0 : k == RB2 ? 1 : 2;
        L ang = rot ? q.norm() * sa : std::fabs(q[ai]) * sa, gap = PIL - ang;
        auto ctx = [&]() { return str(" gap ", (double)gap, " of ", s.describe()); };
        VectorXd a = fac->compute_residual();
        std::vector<MatrixXd> J = dirtyBlocks(r, *fac);
        fac->compute_jacobians(J);
        c.eval();
        const char *fn = fkName(k);
        if (!c.check(a.size() == q.size() && a.allFinite(), str(fn, ":residual-not-finite"), mstr(a.transpose()) + ctx())) return;
        if (rot) {
            V3L x = a.cast<L>() * sa, y = q * sa;
            c.check(x.norm() <= PIL + 1e-9L, str(fn, ":beyond-half-a-turn"), mstr(x.transpose()) + ctx());
            c.check((refExp(x) - refExp(y)).norm() <= 5e-8L, str(fn, ":residual"), str(mstr(x.transpose()), " expected ", mstr(y.transpose()), ctx()));
            if (gap > 1e-6L) c.check((x - y).norm() <= 1e-7L, str(fn, ":residual"), str(mstr(x.transpose()), " expected ", mstr(y.transpose()), ctx()));
        } else {
            L x = (L)a[ai] * sa, y = q[ai] * sa;
            c.check(std::fabs(x) <= PIL + 1e-9L, str(fn, ":beyond-half-a-turn"), str((double)x, ctx()));
            c.check(std::fabs(refWrap(x - y)) <= 1e-11L * (1 + std::fabs(gap)), str(fn, ":residual"), str((double)x, " expected ", (double)y, ctx()));
            if (gap > 1e-9L) c.check(std::fabs(x - y) <= 1e-11L, str(fn, ":residual"), str((double)x, " expected ", (double)y, ctx()));
        }
        if (!c.check(J.size() == f.v.size(), str(fn, ":blocks"), ctx())) return;
        const bool compare = gap > 3e-7L;
        c.count(str(fn, compare ? ":half-turn-compared" : ":half-turn-finite"));
        for (size_t i = 0; i < J.size(); i++) {
            if (z[f.v[i]].c) {
                c.check(J[i].size() == 0, str(fn, ":block-shape"), ctx());
                continue;
            }
            if (!c.check(J[i].rows() == a.size() && J[i].cols() == z[f.v[i]].dof() && J[i].allFinite(), str(fn, ":jacobian-not-finite"), mstr(J[i]) + ctx())) return;
            if (!compare) continue;
            MatL W = refFacJac(s, 0, z, (int)i, std::min(2e-4L, gap / 400));
            L e = (J[i].cast<L>() - W).cwiseAbs().maxCoeff();
            c.check(e <= 1e-6L * (1 + W.cwiseAbs().maxCoeff()), str(fn, ":jacobian"), str("block ", i, " off ", (double)e, ": ", mstr(J[i]), " expected ", mstr(W), ctx()));
        }
        Hash h;
        h.u(s.hash());
        c.cover(h.h);
    }

    // a whole graph in which one measurement cannot be linearised
    static void graphs(Ctx& c)
    {
        Rng& r = c.rng;
        GenOpt o = genOpt(r);
        if (r.p(0.7)) o.fam = r.p(0.5) ? F_2D : F_3D;
        o.size = r.range(1, 6);
        o.p2b_local = false;
        o.noise = r.p(0.5) ? 0 : 0.5;
        o.perturb = r.logu(1e-3, 0.1);
        Spec s = genProblem(r, o).spec;
        Scene sc = build(s);
        std::vector<size_t> cand;
        for (size_t i = 0; i < s.facs.size(); i++) {
            auto& f = s.facs[i];
            if (f.k != BO && f.k != IRB && f.k != BP2 && f.k != B2 && f.k != RB2) continue;
            const auto &a = s.vars[f.v[0]], &b = s.vars[f.v[1]];
            if ((!a.c && a.in_graph) || (!b.c && b.in_graph && f.k != IRB)) cand.push_back(i);
        }
        if (cand.empty()) throw Skip();
        const FacSpec& f = s.facs[cand[r.u64() % cand.size()]];
        const bool flat = f.k == B2 || f.k == RB2, saturates = f.k == BP2;
        const int m = flat ? 2 : 3;
        auto &va = sc.vars[f.v[0]], &vb = sc.vars[f.v[1]];
        const bool moveA = !s.vars[f.v[0]].c && s.vars[f.v[0]].in_graph && (f.k == IRB || s.vars[f.v[1]].c || !s.vars[f.v[1]].in_graph || r.p(0.5));
        auto &moved = moveA ? va : vb;
        const VectorXd was = moved->value();
        VectorXd x = was;
        VectorXd other = moveA ? (f.k == IRB ? VectorXd(dynamic_cast<InverseRangeVariable&>(*vb).pos_W()) : VectorXd(vb->value().head(m))) : VectorXd(va->value().head(m));
        x.head(m) = other;
        // the cached results of before must not be taken for those of now
        const bool warm = r.p(0.6);
        SparseOptimizer opt;
        OptimizerSettings q;
        q.method = r.p(0.5) ? OptimizerMethod::GaussNewton : OptimizerMethod::LevenbergMarquardt;
        q.max_num_iterations = 15;
        q.verbose = r.p(0.05);
        if (warm) {
            sc.g->compute_full_jacobian_and_residual();
            sc.g->compute_sparse_jacobian_matrix();
        }
        moved->set_value_from_vector(x);
        auto ctx = [&]() { return str(" factor ", f.id, " (", fkName(f.k), ") of ", s.describe()); };
        VectorXd bits = sc.bits();
        c.check(sc.g->compute_full_residual_vector().allFinite(), "graph-residual-not-finite", ctx());
        auto refused = [&](const char *what, std::function<void()> fn) {
            bool threw = false;
            try {
                fn();
            } catch (const std::exception&) {
                threw = true;
            }
            if (saturates) return;
            c.check(threw, str("graph-not-refused:", what), ctx());
            c.check(sameBits(bits, sc.bits()), "refusal-moved-variables", ctx());
            c.count(str("graph-refused:", what));
        };
        for (int t = r.range(1, 3); t > 0; t--)
            switch (r.range(0, 3)) {
            case 0: refused("dense", [&] { sc.g->compute_full_jacobian_matrix(); }); break;
            case 1: refused("sparse", [&] { sc.g->compute_sparse_jacobian_matrix(); }); break;
            case 2: refused("both", [&] { sc.g->compute_full_jacobian_and_residual(); }); break;
            default:
                opt.setup(sc.g, q);
                VectorXd before = sc.bits();
                opt.optimize(); // nothing may escape
                auto& b = opt.current_stats_;
                if (!saturates) {
                    c.check(b.status != OptimizerStatus::SUCCESS && b.status != OptimizerStatus::RUNNING && !b.valid, "optimizer-success-without-jacobian",
                            str("status ", (int)b.status, ctx()));
                    c.check(sameBits(before, sc.bits()), "optimizer-moved-without-jacobian", ctx());
                    c.count("optimizer-refused");
                } else {
                    c.check(finite(sc), "optimizer-not-finite", ctx());
                    c.count("optimizer-saturated");
                }
                bits = sc.bits();
                break;
            }
        if (saturates && sameBits(bits, sc.bits()) && moved->value().head(m) == other) {
            bool threw = false;
            try {
                MatrixXd D = sc.g->compute_full_jacobian_matrix();
                c.check(D.allFinite(), "graph-jacobian-not-finite", ctx());
                c.check((MatrixXd(sc.g->compute_sparse_jacobian_matrix()) - D).norm() == 0, "dense-sparse-differ", ctx());
            } catch (const std::exception&) {
                threw = true; // another factor looks at the same landmark
            }
            if (!threw) c.count("graph-saturated");
        }
        c.eval();
        // the landmark moves away again
        for (size_t i = 0; i < sc.vars.size(); i++)
            if (!s.vars[i].c && sc.vars[i] != moved) {
                auto st = initialState(s.vars[i]);
                sc.vars[i]->set_value_from_vector(st.toValue());
            }
        moved->set_value_from_vector(was);
        Scene fr = build(s);
        for (size_t i = 0; i < sc.vars.size(); i++)
            if (!s.vars[i].c) fr.vars[i]->set_value_from_vector(sc.vars[i]->value());
        try {
            fr.g->compute_full_jacobian_and_residual();
        } catch (const std::exception&) {
            throw Skip();
        }
        auto eq = [](const MatrixXd& a, const MatrixXd& b) { return a.rows() == b.rows() && a.cols() == b.cols() && (a - b).norm() <= 1e-9 * (1 + b.norm()); };
        c.check(eq(sc.g->compute_full_jacobian_matrix(), fr.g->jacobian()) && eq(sc.g->compute_full_residual_vector(), fr.g->residual()) &&
                    eq(MatrixXd(sc.g->compute_sparse_jacobian_matrix()), fr.g->jacobian()),
                "not-recovered", ctx());
        SparseOptimizer of;
        of.setup(fr.g, q);
        of.optimize();
        opt.setup(sc.g, q);
        opt.optimize();
        if (of.current_stats_.status == OptimizerStatus::SUCCESS) {
            c.check(opt.current_stats_.status == OptimizerStatus::SUCCESS && std::fabs(opt.current_stats_.chi2 - of.current_stats_.chi2) <= 1e-6 * (1 + of.current_stats_.chi2),
                    "optimizer-not-recovered", str("status ", (int)opt.current_stats_.status, " cost ", opt.current_stats_.chi2, " for ", of.current_stats_.chi2, ctx()));
            c.count("recovered");
        }
        Hash h;
        h.u(s.hash());
        h.u((uint64_t)f.id);
        c.cover(h.h);
    }

    void run_case(Ctx& c)
    {
        switch (c.idx % 4) {
        case 0: nearSensor(c); break;
        case 1: halfTurn(c); break;
        case 2: c.rng.p(0.3) ? planeKink(c) : nearSensor(c); break;
        default:
            if (c.idx % 16 == 3) graphs(c);
            else if (c.idx % 16 == 7) farAway(c);
            else nearSensor(c);
        }
    }
} // namespace vp
