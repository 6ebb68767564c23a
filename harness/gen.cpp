// Generators: variables, single factors in every regime, and well-posed problems with known truth.
#include "model.hpp"

namespace vp
{
    Vector3d genUnit(Rng& r)
    {
        for (;;) {
            Vector3d v(r.n(), r.n(), r.n());
            if (r.p(0.15)) { // axis aligned
                v.setZero();
                v[r.range(0, 2)] = r.p(0.5) ? 1 : -1;
            }
            if (v.norm() > 1e-3) return v.normalized();
        }
    }
    Vector3d genRotvec(Rng& r, int mode)
    {
        const double pi = 3.14159265358979323846;
        if (mode < 0) mode = r.range(0, 9);
        switch (mode) {
        case 0: return Vector3d::Zero();
        case 1: return genUnit(r) * r.logu(1e-14, 1e-7);
        case 2: return genUnit(r) * r.logu(1e-7, 1e-2);
        case 3: return genUnit(r) * (pi - r.logu(1e-9, 1e-1));
        case 4: return genUnit(r) * pi;
        case 5: return genUnit(r) * (pi / 2 * r.range(1, 2));
        default: return genUnit(r) * r.uni(1e-3, pi - 1e-2);
        }
    }
    double genSigma(Rng& r) { return r.p(0.2) ? 1.0 : r.logu(1e-3, 1e2); }

    VarSpec genVar(Rng& r, VK k, int id, int n, double scale)
    {
        VarSpec s;
        s.k = k;
        s.id = id;
        if (scale < 0) scale = r.p(0.1) ? r.logu(1e-3, 1e3) : r.logu(0.3, 30);
        auto vec = [&](int m) {
            VectorXd v(m);
            for (int i = 0; i < m; i++)
                v[i] = r.p(0.05) ? 0.0 : scale * r.n();
            return v;
        };
        switch (k) {
        case GEN: s.init = vec(n > 0 ? n : r.range(1, 5)); break;
        case LM: s.init = vec(3); break;
        case ROT: s.init = genRotvec(r); break;
        case POSE:
            s.init = VectorXd(6);
            s.init << vec(3), genRotvec(r);
            s.ctor = r.range(0, 1);
            break;
        case P2:
            s.init = VectorXd(3);
            s.init << vec(2), (r.p(0.2) ? (r.p(0.5) ? 1 : -1) * (3.14159265358979323846 - r.logu(1e-9, 0.2)) : r.uni(-3.14, 3.14));
            break;
        case PLANE:
            s.init = VectorXd(4);
            s.init << genUnit(r) * r.logu(0.1, 10), scale * r.n();
            break;
        case IR:
            s.init = VectorXd(7);
            s.init << vec(3), genUnit(r) * r.logu(0.1, 10), r.logu(0.05, 1e3);
            break;
        }
        return s;
    }

    bool inDomain(const FacSpec& f, const std::vector<RVar>& st)
    {
        auto V = [&](int i) -> const RVar& { return st[f.v[i]]; };
        VecL r = f.residual(st);
        for (int i = 0; i < r.size(); i++)
            if (!std::isfinite((double)r[i])) return false;
        switch (f.k) {
        case POP:
        case RP:
        case POB: return r.norm() * f.s1 < 3.1L;
        case BO:
        case IRB:
        case BP2: {
            V3L d = V(0).R * (V(1).pos() - V(0).v);
            if (d.norm() < 0.05L) return false;
            if (f.k == IRB && (V(1).v[0] < 2e-6L || V(1).v[0] > 900)) return false;
            if (f.k == BP2) {
                V3L k = f.p.cast<L>();
                k /= k.norm();
                if (k.dot(d) / d.norm() < 0.02L) return false;
            }
            return true;
        }
        case B2:
        case RB2: {
            L n = (V(1).v.head(2) - V(0).v.head(2)).norm();
            return n > 0.05L && std::fabs(r[r.size() - 1] * (f.k == B2 ? f.s1 : f.s2)) < 3.1L;
        }
        case P2P:
        case P2B: return std::fabs(r[2] * f.s2) < 3.1L;
        case PL: {
            if (!f.scaled) return true;
            V3L p0 = f.p.cast<L>();
            return (V(0).pos() - p0).norm() > 0.05L;
        }
        default: return true;
        }
    }

    Spec genFactorSpec(Rng& r, FK k, bool diff)
    {
        for (int attempt = 0;; attempt++) {
            Spec s;
            int id = r.p(0.5) ? 0 : r.range(-1000000, 1000000);
            auto add = [&](VK vk, int n = -1, double sc = -1) {
                s.vars.push_back(genVar(r, vk, id++, n, sc));
                return (int)s.vars.size() - 1;
            };
            FacSpec f;
            f.k = k;
            f.id = r.range(-1000, 1000);
            f.s1 = genSigma(r);
            f.s2 = genSigma(r);
            bool near = r.p(0.5); // measurement near the truth, else arbitrary
            auto meas3 = [&](int vi) { return vi; };
            (void)meas3;
            double sc = r.p(0.1) ? r.logu(1e-2, 1e3) : r.logu(0.3, 30);
            switch (k) {
            case GP: {
                VK t = r.p(0.6) ? GEN : r.p(0.7) ? LM : IR;
                f.v = {add(t, -1, sc)};
                break;
            }
            case GB: {
                bool lm = r.p(0.4);
                int n = lm ? 3 : r.range(1, 5);
                f.v = {add(lm ? LM : GEN, n, sc), add(lm && r.p(0.8) ? LM : GEN, n, sc), add(lm && r.p(0.2) ? LM : GEN, n, sc)};
                break;
            }
            case LV: {
                int t = r.range(0, 3);
                if (t == 0) {
                    int n = r.range(1, 6), m = r.range(1, n);
                    f.i0 = r.range(0, n - m);
                    f.v = {add(GEN, n, sc), add(GEN, n, sc), add(GEN, m, sc)};
                } else if (t == 1) f.v = {add(LM, 3, sc), add(LM, 3, sc), add(r.p(0.5) ? GEN : LM, 3, sc)};
                else if (t == 2) f.v = {add(POSE, 6, sc), add(POSE, 6, sc), add(GEN, 3, sc)};
                else f.v = {add(P2, 3, sc), add(P2, 3, sc), add(GEN, 2, sc)};
                f.a = r.p(0.1) ? 0.0 : (r.p(0.1) ? -1 : 1) * r.logu(1e-2, 1e2);
                break;
            }
            case PPP:
            case POP: f.v = {add(POSE, 6, sc)}; break;
            case RP: f.v = {add(ROT)}; break;
            case PPB:
                f.v = {add(POSE, 6, sc), add(POSE, 6, sc), add(r.p(0.7) ? GEN : LM, 3, sc)};
                f.local = r.p(0.5);
                break;
            case POB: f.v = {add(POSE, 6, sc), add(POSE, 6, sc), add(ROT)}; break;
            case BO:
            case BP2: f.v = {add(POSE, 6, sc), add(LM, 3, sc)}; break;
            case IRB: f.v = {add(POSE, 6, sc), add(IR, 1, sc)}; break;
            case B2:
            case RB2: f.v = {add(P2, 3, sc), add(GEN, 2, sc)}; break;
            case P2P: f.v = {add(P2, 3, sc)}; break;
            case P2B:
                f.v = {add(P2, 3, sc), add(P2, 3, sc), add(GEN, 3, sc)};
                f.local = r.p(0.5);
                break;
            case PL:
                f.v = {add(r.p(0.6) ? LM : GEN, 3, sc), add(PLANE, 4, sc)};
                if (r.p(0.7)) {
                    f.scaled = r.p(0.8);
                    f.a = r.logu(0.05, 100);
                    f.p = VectorXd(3);
                    f.p << sc * r.n(), sc * r.n(), sc * r.n();
                }
                break;
            case PLP: f.v = {add(PLANE, 4, sc)}; break;
            case CT:
                f.v = {add(ROT), add(GEN, 3, sc), add(GEN, 1, 1.0), add(LM, 3, sc), add(LM, 3, sc)};
                break;
            default: break;
            }
            auto st = initialStates(s);
            VectorXd keep = f.p;
            f.fit(st);
            if (k == PL) f.p = keep;
            else if (f.p.size()) {
                if (near) {
                    double e = r.logu(1e-9, 0.3);
                    if (k == POP || k == RP) {
                        V3L d(e * r.n(), e * r.n(), e * r.n());
                        f.p = refLog(refExp(d) * st[f.v[0]].R).cast<double>();
                    } else
                        for (int i = 0; i < f.p.size(); i++)
                            f.p[i] += e * r.n();
                } else {
                    if (k == POP || k == RP) f.p = genRotvec(r);
                    else if (k == BO || k == IRB || k == BP2) f.p = genUnit(r) * (r.p(0.3) ? r.logu(0.1, 10) : 1.0);
                    else if (k == B2) f.p[0] = r.uni(-7, 7);
                    else if (k == RB2) f.p << r.logu(0.01, 100), r.uni(-7, 7);
                    else if (k == PLP) {
                        Vector3d n = genUnit(r) * r.logu(0.2, 5);
                        f.p << n[0], n[1], n[2], sc * r.n();
                    } else
                        for (int i = 0; i < f.p.size(); i++)
                            f.p[i] += sc * r.n();
                }
                if (k == P2P && r.p(0.3)) f.p[2] += r.range(-2, 2) * 6.283185307179586;
                if (k == BP2) {
                    f.p.normalize();
                    Vector3d ka = f.p.cwiseAbs();
                    std::sort(ka.data(), ka.data() + 3);
                    if (r.p(0.3)) f.a = r.logu(1e-8, 1e-3);
                }
            } else if (near && (k == P2B || k == PPB || k == GB)) {
                // put the measurement variable near the actual difference
                RVar m = st[f.v[2]];
                auto z = st;
                z[f.v[2]].v.setZero();
                FacSpec g = f;
                g.s1 = g.s2 = 1;
                m.v = g.residual(z);
                for (int i = 0; i < m.v.size(); i++)
                    m.v[i] += 1e-2 * r.n();
                setInit(s.vars[f.v[2]], m);
            }
            s.facs.push_back(f);
            st = initialStates(s);
            if (attempt < 200) {
                if (diff && !inDomain(f, st)) continue;
                // residuals: stay clear of singular geometry
                if (!diff) {
                    if (k == BO || k == IRB || k == BP2)
                        if ((st[f.v[1]].pos() - st[f.v[0]].v).norm() < 1e-3L) continue;
                    if (k == B2 || k == RB2)
                        if ((st[f.v[1]].v.head(2) - st[f.v[0]].v.head(2)).norm() < 1e-3L) continue;
                    if (k == BP2) {
                        V3L d = st[f.v[0]].R * (st[f.v[1]].pos() - st[f.v[0]].v), kk = f.p.cast<L>();
                        if (kk.dot(d) / (kk.norm() * d.norm()) < 2e-3L) continue;
                    }
                }
            }
            for (auto& v : s.vars)
                v.c = r.p(0.3);
            return s;
        }
    }

    // ------------------------------------------------------------------ problems with truth
    struct PB {
        Rng& r;
        const GenOpt& o;
        Problem P;
        int nextv = 1, nextf = 1;
        std::set<int> usedv, usedf;
        PB(Rng& r_, const GenOpt& o_) : r(r_), o(o_) {}
        int vid()
        {
            if (o.nice_ids) return nextv++;
            for (;;) {
                int id = r.p(0.5) ? r.range(-20, 60) : (int)(int32_t)r.u64();
                if (usedv.insert(id).second) return id;
            }
        }
        int fid()
        {
            if (o.nice_ids) return nextf++;
            for (;;) {
                int id = r.p(0.5) ? r.range(-50, 200) : (int)(int32_t)r.u64();
                if (usedf.insert(id).second) return id;
            }
        }
        int addVar(const RVar& t, bool meas)
        {
            VarSpec s;
            s.k = t.k;
            s.id = vid();
            s.init = VectorXd::Zero(t.k == IR ? 7 : t.k == POSE ? 6 : t.k == ROT ? 3 : t.v.size());
            s.ctor = r.range(0, 1);
            setInit(s, t);
            if (meas) {
                s.c = true;
                s.in_graph = !(o.outside_consts && r.p(0.5));
            }
            // the truth is what the double-valued initial value says
            P.spec.vars.push_back(s);
            RVar x = initialState(s);
            x.c = s.c;
            P.truth.push_back(x);
            return (int)P.spec.vars.size() - 1;
        }
        RVar gen(const VecL& v)
        {
            RVar x;
            x.k = GEN;
            x.v = v;
            return x;
        }
        RVar lm(const V3L& v)
        {
            RVar x;
            x.k = LM;
            x.v = v;
            return x;
        }
        RVar rot(const M3L& R)
        {
            RVar x;
            x.k = ROT;
            x.v = VecL(0);
            x.R = R;
            return x;
        }
        double sig() { return r.logu(o.sig_lo, o.sig_hi); }
        int addFac(FK k, std::vector<int> v)
        {
            FacSpec f;
            f.k = k;
            f.id = fid();
            f.v = v;
            f.s1 = sig();
            f.s2 = sig();
            f.fit(P.truth);
            P.spec.facs.push_back(f);
            return (int)P.spec.facs.size() - 1;
        }
        VecL rv(int n)
        {
            VecL v(n);
            for (int i = 0; i < n; i++)
                v[i] = (L)(o.pos_scale * r.n());
            return v;
        }
        // measurement variable for a between factor: constant, or free with its own prior
        int meas(const RVar& t)
        {
            int m = addVar(t, true);
            if (r.p(0.15)) {
                P.spec.vars[m].c = false;
                P.spec.vars[m].in_graph = true;
                P.truth[m].c = false;
                addFac(t.k == ROT ? RP : GP, {m});
            }
            return m;
        }
        void prior(int vi)
        {
            switch (P.spec.vars[vi].k) {
            case POSE:
                addFac(PPP, {vi});
                addFac(POP, {vi});
                break;
            case ROT: addFac(RP, {vi}); break;
            case P2: addFac(P2P, {vi}); break;
            case PLANE: addFac(PLP, {vi}); break;
            default: addFac(GP, {vi});
            }
        }
        void between(FK k, int a, int b)
        {
            auto& T = P.truth;
            if (k == GB) {
                int m = meas(gen(T[b].v - T[a].v));
                addFac(GB, {a, b, m});
            } else if (k == PPB) {
                bool local = r.p(0.5);
                V3L d = T[b].v - T[a].v;
                if (local) d = T[a].R * d;
                int m = meas(r.p(0.8) ? gen(d) : lm(d));
                int f = addFac(PPB, {a, b, m});
                P.spec.facs[f].local = local;
            } else if (k == POB) {
                int m = meas(rot(T[a].R * T[b].R.transpose()));
                addFac(POB, {a, b, m});
            } else if (k == P2B) {
                bool local = o.p2b_local && r.p(0.5);
                VecL d(3);
                d << T[b].v.head(2) - T[a].v.head(2), refWrap(T[b].v[2] - T[a].v[2]);
                if (local) {
                    L t = T[a].v[2];
                    Eigen::Matrix<L, 2, 2> R;
                    R << std::cos(t), std::sin(t), -std::sin(t), std::cos(t);
                    d.head(2) = (R * d.head(2)).eval();
                }
                int m = meas(gen(d));
                int f = addFac(P2B, {a, b, m});
                P.spec.facs[f].local = local;
            }
        }
        void linear(int size)
        {
            int n = r.p(0.06) ? r.range(4, 24) : r.range(1, 3);
            std::vector<int> xs;
            bool lms = n == 3 && r.p(0.5);
            int kind = r.range(0, 2);
            VecL vel = rv(n) / 5;
            double dt = r.logu(0.1, 3);
            VecL p0 = rv(n);
            int velv = -1;
            for (int i = 0; i < size; i++) {
                VecL v = kind == 0 ? VecL(p0 + vel * (L)(dt * i)) : rv(n);
                xs.push_back(addVar(lms ? lm(v) : gen(v), false));
                if (i == 0 || r.p(0.3)) addFac(GP, {xs[i]});
                if (i > 0) {
                    if (kind == 0) {
                        if (velv < 0) {
                            velv = addVar(gen(vel), false);
                            if (r.p(0.5)) addFac(GP, {velv});
                            else addFac(GP, {xs[1]});
                        }
                        int f = addFac(LV, {xs[i - 1], xs[i], velv});
                        P.spec.facs[f].a = dt;
                    } else
                        between(GB, xs[i - 1], xs[i]);
                }
                if (i > 1 && r.p(0.3)) between(GB, xs[r.range(0, i - 1)], xs[i]);
            }
        }
        void planar(int size)
        {
            std::vector<int> ps;
            int np = std::max(1, size * 2 / 3), nl = size - np;
            for (int i = 0; i < np; i++) {
                RVar x;
                x.k = P2;
                x.v = VecL(3);
                double th = o.wrap && r.p(0.3) ? (r.p(0.5) ? 1 : -1) * (3.1415 - r.logu(1e-6, 0.1)) : r.uni(-3, 3);
                x.v << rv(2), (L)th;
                ps.push_back(addVar(x, false));
                if (i == 0 || r.p(0.15)) addFac(P2P, {ps[i]});
                if (i > 0) between(P2B, ps[i - 1], ps[i]);
                if (i > 1 && r.p(0.3)) between(P2B, ps[r.range(0, i - 2)], ps[i]);
            }
            for (int i = 0; i < nl; i++) {
                VecL v = rv(2);
                auto far = [&](const VecL& q) {
                    for (int p : ps)
                        if ((P.truth[p].v.head(2) - q).norm() < 0.3L * (L)o.pos_scale) return false;
                    return true;
                };
                for (int t = 0; t < 50 && !far(v); t++)
                    v = rv(2) * 1.5L;
                int l = addVar(gen(v), false);
                int obs = r.range(1, 3);
                for (int j = 0; j < obs; j++)
                    addFac(r.p(0.5) ? RB2 : B2, {r.pick(ps), l});
                if (r.p(0.4)) addFac(GP, {l});
            }
        }
        void spatial(int size)
        {
            std::vector<int> ps;
            int np = std::max(1, size / 2), nl = size - np;
            for (int i = 0; i < np; i++) {
                RVar x;
                x.k = POSE;
                x.v = rv(3);
                x.R = refExp(V3L(Vector3d(genRotvec(r, r.p(0.2) ? 3 : 9)).cast<L>()));
                ps.push_back(addVar(x, false));
                if (i == 0 || r.p(0.2)) {
                    addFac(PPP, {ps[i]});
                    addFac(POP, {ps[i]});
                }
                if (i > 0) {
                    between(PPB, ps[i - 1], ps[i]);
                    between(POB, ps[i - 1], ps[i]);
                    if (i > 1 && r.p(0.3)) between(r.p(0.5) ? PPB : POB, ps[r.range(0, i - 2)], ps[i]);
                    if (r.p(0.15)) {
                        int vv = addVar(gen((P.truth[ps[i]].v - P.truth[ps[i - 1]].v) / 2), true);
                        int f = addFac(LV, {ps[i - 1], ps[i], vv});
                        P.spec.facs[f].a = 2.0;
                    }
                }
            }
            for (int i = 0; i < nl; i++) {
                V3L v = rv(3);
                auto far = [&](const V3L& q) {
                    for (int p : ps)
                        if ((P.truth[p].v - q).norm() < 0.3L * (L)o.pos_scale) return false;
                    return true;
                };
                for (int t = 0; t < 50 && !far(v); t++)
                    v = rv(3) * 1.5L;
                int kind = r.range(0, 3);
                if (kind == 0) { // inverse range landmark
                    RVar x;
                    x.k = IR;
                    x.org = rv(3);
                    V3L d = v - x.org;
                    x.v = VecL(1);
                    x.v[0] = 1 / d.norm();
                    x.brg = d / d.norm();
                    int l = addVar(x, false);
                    for (int j = r.range(1, 2); j > 0; j--)
                        addFac(IRB, {r.pick(ps), l});
                    if (r.p(0.5)) addFac(GP, {l});
                } else {
                    int l = addVar(lm(v), false);
                    for (int j = r.range(1, 3); j > 0; j--)
                        addFac(r.p(0.5) ? BO : BP2, {r.pick(ps), l});
                    if (r.p(0.4)) addFac(GP, {l});
                    if (o.planes && r.p(0.5)) {
                        RVar pl;
                        pl.k = PLANE;
                        Vector3d n = genUnit(r);
                        pl.v = VecL(4);
                        pl.v << n.cast<L>(), -n.cast<L>().dot(P.truth[l].v.head(3));
                        int q = addVar(pl, false);
                        int f = addFac(PL, {l, q});
                        if (r.p(0.5)) {
                            auto& F = P.spec.facs[f];
                            F.scaled = true;
                            F.a = r.logu(0.5, 20);
                            F.p = (rv(3) * 2).cast<double>();
                        }
                        addFac(PLP, {q});
                    }
                }
            }
            if (r.p(0.3)) { // constant plane constraining a landmark
                V3L v = rv(3);
                int l = addVar(lm(v), false);
                RVar pl;
                pl.k = PLANE;
                Vector3d n = genUnit(r);
                pl.v = VecL(4);
                pl.v << n.cast<L>(), -n.cast<L>().dot(P.truth[l].v.head(3));
                int q = addVar(pl, true);
                addFac(PL, {l, q});
                addFac(GP, {l});
            }
            if (o.coord && r.p(0.35)) {
                int R = addVar(rot(refExp(V3L(Vector3d(genRotvec(r, 9)).cast<L>()))), false);
                addFac(RP, {R});
                int org = addVar(gen(rv(3)), false), sc = addVar(gen(VecL::Constant(1, (L)r.logu(0.5, 2))), false);
                addFac(GP, {org});
                addFac(GP, {sc});
                for (int j = r.range(1, 3); j > 0; j--) {
                    int b = addVar(lm(rv(3)), false);
                    addFac(GP, {b});
                    V3L a = P.truth[sc].v[0] * (P.truth[R].R * P.truth[b].v) - P.truth[org].v;
                    int A = addVar(lm(a), false);
                    if (r.p(0.5)) addFac(GP, {A});
                    addFac(CT, {R, org, sc, A, b});
                }
            }
        }
    };

    GenOpt genOpt(Rng& r)
    {
        GenOpt o;
        o.fam = (Family)r.range(0, 3);
        o.size = r.range(1, 8);
        o.noise = r.p(0.5) ? 0 : r.logu(0.01, 1);
        o.nice_ids = r.p(0.3);
        o.pconst = r.p(0.3) ? 0 : 0.2;
        return o;
    }

    bool largeCase(Ctx& c, GenOpt& o, int every, int lo, int hi, bool gate)
    {
        if (c.idx % every != every - 1) return false;
        o.size = c.rng.range(lo, hi);
        o.gate = gate;
        c.count("large-graph");
        return true;
    }

    Problem genProblem(Rng& r, const GenOpt& o)
    {
        for (int attempt = 0; attempt < 40; attempt++) {
            PB b(r, o);
            int sz = std::max(1, o.size);
            switch (o.fam) {
            case F_LINEAR: b.linear(sz); break;
            case F_2D: b.planar(sz); break;
            case F_3D: b.spatial(sz); break;
            case F_MIXED:
                b.spatial(std::max(1, sz / 2));
                b.planar(std::max(1, sz / 3));
                b.linear(std::max(1, sz / 4));
                break;
            }
            Problem& P = b.P;
            Spec& S = P.spec;
            for (size_t i = 0; i < S.vars.size(); i++)
                if (!S.vars[i].c && r.p(o.pconst)) {
                    S.vars[i].c = P.truth[i].c = true;
                    S.vars[i].in_graph = !(o.outside_consts && r.p(0.3));
                }
            // remove factors that only touch constants? they are legal: keep some
            // condition: add priors where the truth is not well determined
            for (int pass = 0; pass < 2; pass++) {
                int rank = 0;
                Layout l = layout(S, P.truth);
                if (l.n == 0) break;
                bool bad = o.gate && refCondition(S, P.truth, &rank) > 1e6L;
                if (!bad && l.m >= l.n) break;
                for (size_t i = 0; i < S.vars.size(); i++)
                    if (!S.vars[i].c) b.prior((int)i);
            }
            if (o.more_priors > 0)
                for (size_t i = 0; i < S.vars.size(); i++)
                    for (int k = S.vars[i].c ? 0 : (int)r.uni(0, 2 * o.more_priors + 1); k > 0; k--)
                        b.prior((int)i);
            Layout l = layout(S, P.truth);
            if (l.n == 0 && o.pconst < 0.5) continue;
            if (l.m < l.n) continue;
            bool hasplane = false;
            for (auto& v : S.vars)
                hasplane |= v.k == PLANE && !v.c;
            if (o.gate && !hasplane && l.n && refCondition(S, P.truth) > 1e7L) continue;
            // noise on constructor measurements and on constant measurement variables
            if (o.noise > 0) {
                for (auto& f : S.facs) {
                    auto N = [&](double s) { return o.noise * s * r.n(); };
                    switch (f.k) {
                    case GP:
                    case PPP:
                        for (int i = 0; i < f.p.size(); i++)
                            f.p[i] += N(f.s1);
                        break;
                    case POP:
                    case RP: {
                        double s = std::min(f.s1, 0.3);
                        V3L d(N(s), N(s), N(s));
                        f.p = refLog(refExp(d) * P.truth[f.v[0]].R).cast<double>();
                        break;
                    }
                    case BO:
                    case IRB:
                    case BP2: {
                        double s = std::min(f.s1, 0.1);
                        for (int i = 0; i < 3; i++)
                            f.p[i] += N(s);
                        f.p.normalize();
                        break;
                    }
                    case B2: f.p[0] += N(std::min(f.s1, 0.2)); break;
                    case RB2:
                        f.p[0] += N(std::min(f.s1, 0.3));
                        f.p[1] += N(std::min(f.s2, 0.2));
                        break;
                    case P2P:
                        f.p[0] += N(f.s1);
                        f.p[1] += N(f.s1);
                        f.p[2] += N(std::min(f.s2, 0.2));
                        break;
                    case PLP:
                        f.p[3] += N(f.s2);
                        break;
                    default: break;
                    }
                }
            }
            // initial guess
            for (size_t i = 0; i < S.vars.size(); i++) {
                if (S.vars[i].c) continue;
                RVar x = P.truth[i];
                VecL d(x.dof());
                for (int j = 0; j < d.size(); j++) {
                    L s = (L)(o.perturb * r.n());
                    bool euclid = x.k == GEN || x.k == LM || (x.k == POSE && j < 3) || (x.k == P2 && j < 2);
                    if (euclid) s *= (L)o.pos_scale * 0.5L;
                    if (x.k == IR) s *= x.v[0];
                    d[j] = s;
                }
                x.plus(d);
                setInit(S.vars[i], x);
            }
            return P;
        }
        throw Skip();
    }

    OptimizerSettings genSettings(Rng& r)
    {
        OptimizerSettings s;
        s.method = r.p(0.5) ? OptimizerMethod::GaussNewton : OptimizerMethod::LevenbergMarquardt;
        s.max_num_iterations = (size_t)(r.p(0.1) ? r.range(0, 2) : r.range(3, 60));
        s.step_tolerance = r.logu(1e-12, 1e-3);
        s.residual_tolerance = r.p(0.2) ? 0.0 : r.logu(1e-14, 1e-3);
        s.initial_lambda = r.logu(1e-8, 1e1);
        s.max_lambda = s.initial_lambda * r.logu(1.0, 1e8);
        s.lambda_up_factor = r.uni(1.5, 20);
        s.lambda_down_factor = r.uni(0.02, 0.8);
        s.learning_rate = r.p(0.7) ? 1.0 : r.uni(0.1, 1.3);
        s.verbose = r.p(0.1);
        return s;
    }
} // namespace vp
