// Independent reference model of factorama: variable states and factor residuals in long double,
// declarative graph specifications, generators and a reference solver. Nothing here calls the library's
// numerics; states are read from library variables through their public accessors only.
#pragma once
#include "vp.hpp"
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include <array>
#include <functional>
#include <memory>

#include "factorama/factor_graph.hpp"
#include "factorama/sparse_optimizer.hpp"

namespace vp
{
    typedef long double L;
    typedef Eigen::Matrix<L, -1, 1> VecL;
    typedef Eigen::Matrix<L, -1, -1> MatL;
    typedef Eigen::Matrix<L, 3, 1> V3L;
    typedef Eigen::Matrix<L, 3, 3> M3L;
    using Eigen::MatrixXd;
    using Eigen::Vector3d;
    using Eigen::VectorXd;
    using namespace factorama;

    const L PIL = 3.14159265358979323846264338327950288L;

    M3L refExp(const V3L& w);
    V3L refLog(const M3L& R);
    M3L refOrtho(const M3L& R); // nearest rotation (through a quaternion)
    M3L refSkew(const V3L& v);
    L refWrap(L a);

    enum VK { GEN, LM, ROT, POSE, P2, PLANE, IR };
    const char *vkName(VK k);
    enum FK { GP, GB, LV, PPP, POP, RP, PPB, POB, BO, IRB, BP2, B2, RB2, P2P, P2B, PL, PLP, CT, NFK };
    const char *fkName(FK k);

    // ---- exact variable state
    struct RVar {
        VK k = GEN;
        int id = 0;
        bool c = false;
        VecL v;               // Euclidean part (GEN, LM, pose position, P2 (x,y,theta), PLANE (n,d), IR (inverse range))
        M3L R = M3L::Identity();
        V3L org = V3L::Zero(), brg = V3L::Zero();
        L lo = 1e-6L, hi = 1e3L;
        int dof() const { return k == POSE ? 6 : k == ROT ? 3 : (int)v.size(); }
        void plus(const VecL& dx);
        V3L pos() const; // world position of LM / POSE / IR / GEN(3)
        static RVar of(const Variable& v);
        VecL diff(const RVar& from) const; // local coordinates: this = from (+) diff
        L dist(const RVar& o) const { return dof() ? diff(o).norm() : 0; }
        VectorXd toValue() const; // the value vector of this state
    };

    // ---- declarative specification
    struct VarSpec {
        VK k = GEN;
        int id = 0;
        bool c = false;
        bool in_graph = true;
        VectorXd init; // GEN n | LM 3 | ROT rotvec 3 | POSE 6 (pos, rotvec) | P2 3 | PLANE 4 | IR origin3 bearing3 range1
        int ctor = 0;  // alternative constructor (POSE)
    };
    struct FacSpec {
        FK k = GP;
        int id = 0;
        std::vector<int> v; // indices into Spec::vars
        VectorXd p;         // measurement
        double s1 = 1, s2 = 1;
        double a = 0;       // dt (LV), r0 (PL), tolerance (BP2)
        int i0 = 0;         // initial index (LV)
        bool local = false, scaled = false;
        bool legacy_local = false; // P2B: reference uses R instead of R^T (see known_findings.json)
        int rdim(const std::vector<RVar>& all) const;
        VecL residual(const std::vector<RVar>& all) const;
        // residual(all) with the measurement so that it vanishes
        void fit(const std::vector<RVar>& all);
    };
    struct Spec {
        std::vector<VarSpec> vars;
        std::vector<FacSpec> facs;
        std::string describe() const;
        uint64_t hash() const;
    };
    RVar initialState(const VarSpec& s);
    std::vector<RVar> initialStates(const Spec& s);
    std::shared_ptr<Variable> makeVar(const VarSpec& s);
    // Pose2DBetween in the local frame: which of the two conventions this factor's residual follows (see known_findings.json),
    // asked at a place where they differ clearly
    bool followsLegacyLocal(const FacSpec& f);
    std::shared_ptr<Factor> makeFac(const FacSpec& f, const std::vector<std::shared_ptr<Variable>>& vars);
    void setInit(VarSpec& s, const RVar& st); // put a state into the spec's initial value

    // ---- library objects built from a spec
    struct Scene {
        Spec spec;
        std::shared_ptr<FactorGraph> g;
        std::vector<std::shared_ptr<Variable>> vars; // parallel to spec.vars
        std::vector<std::shared_ptr<Factor>> facs;   // parallel to spec.facs
        std::vector<RVar> states() const;            // current library states
        VectorXd bits() const;                       // every observable double of every variable, in order
    };
    Scene build(const Spec& s, bool finalize = true);
    // the same objects in a new graph, entered in another order (as many unknowns and entries, another structure)
    void regraph(Scene& sc, Rng& r);

    // Full problem: residual rows in spec.facs order; columns: non-constant in_graph vars in spec.vars order
    struct Layout {
        std::vector<int> col; // per var, -1 if constant or outside
        std::vector<int> row; // per factor
        int n = 0, m = 0;
    };
    Layout layout(const Spec& s, const std::vector<RVar>& st);
    VecL refResidual(const Spec& s, const std::vector<RVar>& st);
    MatL refFacJac(const Spec& s, int fi, const std::vector<RVar>& st, int j, L step = 2e-4L); // d residual_fi / d var v[j]
    MatL refJacobian(const Spec& s, const std::vector<RVar>& st);
    void refPlus(const Spec& s, std::vector<RVar>& st, const VecL& dx);
    struct RefSolve {
        bool ok = false;      // converged to a stationary point
        int iters = 0;
        L cost = 0, grad = 0; // 2-norm squared of residual, ||J^T r||
        L cond = 0;           // condition of J^T J at the result
    };
    RefSolve refSolve(const Spec& s, std::vector<RVar>& st, int maxit = 60);
    L refCondition(const Spec& s, const std::vector<RVar>& st, int *rank = nullptr);

    // ---- value equality helpers
    bool sameBits(const VectorXd& a, const VectorXd& b);
    bool sameBits(const MatrixXd& a, const MatrixXd& b);
    VectorXd varBits(const Variable& v); // value + derived public quantities
    double maxAbs(const MatrixXd& m);

    // ---- generators
    Vector3d genRotvec(Rng& r, int mode = -1); // all regimes including ~0 and ~pi
    Vector3d genUnit(Rng& r);
    double genSigma(Rng& r);
    VarSpec genVar(Rng& r, VK k, int id, int n = -1, double scale = -1);
    // one factor on fresh variables with arbitrary (in-domain) values; far: keep away from non-differentiable sets
    Spec genFactorSpec(Rng& r, FK k, bool differentiable);

    enum Family { F_LINEAR, F_2D, F_3D, F_MIXED };
    struct GenOpt {
        Family fam = F_MIXED;
        double noise = 0;        // measurement noise in units of sigma
        double perturb = 0.05;   // perturbation of the initial guess
        double pconst = 0.15;    // probability of constants among estimated variables (constants keep the truth)
        int size = 6;            // rough number of variables
        bool planes = false;     // free planes (rank deficient by design)
        bool p2b_local = false;
        bool nice_ids = false;
        bool outside_consts = true; // constants outside the graph
        double sig_lo = 0.05, sig_hi = 2.0;
        bool coord = true;
        bool wrap = true;        // headings near +-pi
        double pos_scale = 5;
        double more_priors = 0;  // mean number of further priors per unknown
        bool gate = true;        // solvable problems only
    };
    // every so many cases a graph of another order of magnitude
    bool largeCase(Ctx& c, GenOpt& o, int every, int lo, int hi, bool gate = true);
    struct Problem {
        Spec spec;
        std::vector<RVar> truth; // parallel to spec.vars
    };
    Problem genProblem(Rng& r, const GenOpt& o);
    GenOpt genOpt(Rng& r);

    OptimizerSettings genSettings(Rng& r);
    bool finite(const Scene& s);
} // namespace vp
