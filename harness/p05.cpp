// P05: a clone is an equal and fully independent copy.
#include "varops.hpp"
#include <typeinfo>

namespace vp
{
    const char *kProperty = "P05";
    long n_cases(bool t) { return t ? 300000 : 40000; }

    void run_case(Ctx& c)
    {
        Rng& r = c.rng;
        VK k = (VK)(c.idx % 7);
        const std::string n = vkName(k);
        VarSpec s = genVar(r, k, (int)(int32_t)r.u64());
        s.c = r.p(0.4);
        auto org = makeVar(s);
        auto step = [&](Variable& v) {
            for (;;) {
                VarOp o = genOp(r, k, v.size());
                if (k == PLANE && o.t == VarOp::INC && (v.value().head(3) + o.x.head(3)).norm() < 0.05) continue;
                return o;
            }
        };
        for (int i = r.range(0, 8); i > 0; i--)
            applyOp(step(*org), *org);
        auto cl = org->clone();
        std::string what = str(n, mstr(org->value().transpose()));
        c.check(cl.get() != org.get(), n + ":same-object", what);
        const Variable &ro = *org, &rc = *cl;
        c.check(typeid(ro) == typeid(rc), n + ":type", what);
        c.check(sameBits(varBits(*org), varBits(*cl)), n + ":not-equal",
                str("original ", mstr(varBits(*org).transpose()), " clone ", mstr(varBits(*cl).transpose())));
        c.check(org->name() == cl->name(), n + ":name", what);
        c.check(org->value().data() != cl->value().data(), n + ":shared-storage", what);
        // same behaviour under the same operations
        auto twin = cl->clone();
        const int m = r.range(1, 12);
        std::vector<VarOp> ops;
        for (int i = 0; i < m; i++) {
            VarOp o = step(*org);
            bool a = applyOp(o, *org), b = applyOp(o, *cl);
            c.eval();
            c.count("lockstep");
            c.check(a == b && sameBits(varBits(*org), varBits(*cl)), n + ":behaves-differently", o.describe() + " on " + what);
        }
        // independence: drive the two apart in every order; neither sees the other
        VectorXd tb = varBits(*twin);
        for (int i = 0; i < m; i++) {
            bool first = r.p(0.5);
            Variable &a = first ? *org : *cl, &b = first ? *cl : *org;
            VectorXd bb = varBits(b);
            VarOp o = step(a);
            applyOp(o, a);
            c.eval();
            c.count("independence");
            c.check(sameBits(bb, varBits(b)), n + ":not-independent", o.describe() + " on one changed the other; " + what);
        }
        c.check(sameBits(tb, varBits(*twin)), n + ":not-independent", "operations changed a clone of the clone; " + what);
        VectorXd cb = varBits(*cl);
        org.reset();
        c.check(sameBits(cb, varBits(*cl)), n + ":dies-with-original", what);
        Hash h;
        h.u(k);
        h.m(tb);
        h.m(cb);
        c.cover(h.h);
        if (c.want_sample()) c.sample(str("cloned ", what, ", after diverging: ", mstr(cl->value().transpose())));
    }
} // namespace vp
