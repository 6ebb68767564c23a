// P23, C++ half: writes one random program per line (JSON) together with everything the C++ library answers to it, for
// the Python half (p23.py) to run through the Python module.
#include "varops.hpp"
#include "factorama/bearing_observation_factor.hpp"
#include "factorama/bearing_observation_factor_2d.hpp"
#include "factorama/bearing_projection_factor_2d.hpp"
#include "factorama/coordinate_transform_factor.hpp"
#include "factorama/inverse_range_bearing_factor.hpp"
#include "factorama/random_utils.hpp"
#include "factorama/range_bearing_factor_2d.hpp"
#include <cstdio>
#include <iostream>

namespace vp
{
    bool inDomain(const FacSpec& f, const std::vector<RVar>& st); // gen.cpp
    const char *kProperty = "P23";
    long n_cases(bool t) { return t ? 150000 : 8000; }

    static std::string num(double d)
    {
        if (std::isnan(d)) return "NaN";
        if (std::isinf(d)) return d > 0 ? "Infinity" : "-Infinity";
        char b[40];
        snprintf(b, sizeof b, "%.17g", d);
        return b;
    }
    static std::string js(const std::string& s)
    {
        std::string o = "\"";
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') o += '\\', o += (char)c;
            else if (c < 32) {
                char b[8];
                snprintf(b, 8, "\\u%04x", c);
                o += b;
            } else o += (char)c;
        }
        return o + "\"";
    }
    static std::string vec(const VectorXd& v)
    {
        std::string o = "[";
        for (int i = 0; i < v.size(); i++)
            o += (i ? "," : "") + num(v[i]);
        return o + "]";
    }
    static std::string mat(const MatrixXd& m)
    {
        std::string o = str("{\"r\":", m.rows(), ",\"c\":", m.cols(), ",\"d\":[");
        for (int i = 0; i < m.rows(); i++)
            for (int j = 0; j < m.cols(); j++)
                o += (i || j ? "," : "") + num(m(i, j));
        return o + "]}";
    }
    static std::string ints(const std::vector<long>& v)
    {
        std::string o = "[";
        for (size_t i = 0; i < v.size(); i++)
            o += (i ? "," : "") + std::to_string(v[i]);
        return o + "]";
    }
    static std::string boolean(bool b) { return b ? "true" : "false"; }
    template <class F> static std::string attempt(F f)
    {
        auto err = [](const char *k, const std::exception& e) { return str("{\"err\":\"", k, "\",\"msg\":", js(e.what()), "}"); };
        try {
            return f();
        } catch (const std::domain_error& e) {
            return err("ValueError", e);
        } catch (const std::invalid_argument& e) {
            return err("ValueError", e);
        } catch (const std::length_error& e) {
            return err("ValueError", e);
        } catch (const std::out_of_range& e) {
            return err("IndexError", e);
        } catch (const std::range_error& e) {
            return err("ValueError", e);
        } catch (const std::exception& e) {
            return err("RuntimeError", e);
        }
    }
    static std::string varState(const Variable& v, const Vector3d& probe)
    {
        std::string o = str("{\"id\":", v.id(), ",\"size\":", v.size(), ",\"value\":", vec(v.value()), ",\"type\":", (int)v.type(),
                            ",\"name\":", js(v.name()), ",\"is_constant\":", boolean(v.is_constant()));
        auto V = [&](const char *n, const VectorXd& x) { o += str(",\"", n, "\":", vec(x)); };
        auto M = [&](const char *n, const MatrixXd& x) { o += str(",\"", n, "\":", mat(x)); };
        auto D = [&](const char *n, double x) { o += str(",\"", n, "\":", num(x)); };
        if (auto *p = dynamic_cast<const PoseVariable *>(&v)) V("pos_W", p->pos_W()), V("rot_CW", p->rot_CW()), M("dcm_CW", p->dcm_CW());
        else if (auto *p = dynamic_cast<const LandmarkVariable *>(&v)) V("pos_W", p->pos_W());
        else if (auto *p = dynamic_cast<const RotationVariable *>(&v)) M("dcm_AB", const_cast<RotationVariable *>(p)->dcm_AB()), M("rotation", p->rotation());
        else if (auto *p = dynamic_cast<const InverseRangeVariable *>(&v)) {
            V("pos_W", p->pos_W()), V("origin_pos_W", p->origin_pos_W()), V("bearing_W", p->bearing_W()), D("inverse_range", p->inverse_range());
            D("@minimum_inverse_range", p->minimum_inverse_range_), D("@maximum_inverse_range", p->maximum_inverse_range_);
        } else if (auto *p = dynamic_cast<const PlaneVariable *>(&v)) {
            V("unit_vector", p->unit_vector()), D("distance_from_origin", p->distance_from_origin());
            o += str(",\"distance_from_point\":{\"arg\":", vec(probe), ",\"x\":", num(p->distance_from_point(probe)), "}");
        } else if (auto *p = dynamic_cast<const Pose2DVariable *>(&v)) V("pos_2d", p->pos_2d()), D("theta", p->theta()), M("dcm_2d", p->dcm_2d());
        return o + "}";
    }
    static std::string facState(Factor& f)
    {
        std::vector<long> ids;
        for (auto *v : f.variables())
            ids.push_back(v->id());
        std::string o = str("{\"id\":", f.id(), ",\"residual_size\":", f.residual_size(), ",\"name\":", js(f.name()), ",\"type\":", (int)f.type(),
                            ",\"variables\":", ints(ids), ",\"compute_residual\":", attempt([&] { return vec(f.compute_residual()); }));
        auto V = [&](const char *n, const VectorXd& x) { o += str(",\"", n, "\":", vec(x)); };
        auto D = [&](const char *n, double x) { o += str(",\"", n, "\":", num(x)); };
        if (auto *p = dynamic_cast<BearingObservationFactor *>(&f)) V("bearing_C_obs", p->bearing_C_obs());
        if (auto *p = dynamic_cast<InverseRangeBearingFactor *>(&f)) V("bearing_C_obs", p->bearing_C_obs());
        if (auto *p = dynamic_cast<BearingProjectionFactor2D *>(&f)) V("bearing_C_obs", p->bearing_C_obs());
        if (auto *p = dynamic_cast<BearingObservationFactor2D *>(&f)) D("bearing_angle_obs", p->bearing_angle_obs());
        if (auto *p = dynamic_cast<RangeBearingFactor2D *>(&f)) D("bearing_angle_obs", p->bearing_angle_obs()), D("range_obs", p->range_obs());
        if (auto *p = dynamic_cast<CoordinateTransformFactor *>(&f)) D("weight", p->weight());
        return o + "}";
    }
    static std::string stats(const OptimizerStats& s)
    {
        return str("{\"valid\":", boolean(s.valid), ",\"status\":", (int)s.status, ",\"chi2\":", num(s.chi2), ",\"delta_norm\":", num(s.delta_norm),
                   ",\"residual_norm\":", num(s.residual_norm), ",\"current_iteration\":", s.current_iteration, ",\"rank\":", s.rank,
                   ",\"damping_parameter\":", num(s.damping_parameter), "}");
    }
    static std::string settings(const OptimizerSettings& s)
    {
        return str("{\"method\":", (int)s.method, ",\"max_num_iterations\":", s.max_num_iterations, ",\"step_tolerance\":", num(s.step_tolerance),
                   ",\"residual_tolerance\":", num(s.residual_tolerance), ",\"initial_lambda\":", num(s.initial_lambda), ",\"max_lambda\":", num(s.max_lambda),
                   ",\"lambda_up_factor\":", num(s.lambda_up_factor), ",\"lambda_down_factor\":", num(s.lambda_down_factor),
                   ",\"learning_rate\":", num(s.learning_rate), ",\"verbose\":", boolean(s.verbose),
                   ",\"check_rank_deficiency\":", boolean(s.check_rank_deficiency), "}");
    }
    static std::string enums()
    {
        std::string o = "{";
#define E1(T, N) o += str("\"" #T "." #N "\":", (int)factorama::T::N, ",");
        E1(VariableType, none) E1(VariableType, pose) E1(VariableType, landmark) E1(VariableType, inverse_range_landmark)
        E1(VariableType, extrinsic_rotation) E1(VariableType, generic) E1(VariableType, plane) E1(VariableType, pose_2d)
        E1(FactorType, none) E1(FactorType, bearing_observation) E1(FactorType, inverse_range_bearing) E1(FactorType, generic_prior)
        E1(FactorType, generic_between) E1(FactorType, pose_position_prior) E1(FactorType, pose_orientation_prior)
        E1(FactorType, pose_position_between) E1(FactorType, pose_orientation_between) E1(FactorType, plane_factor) E1(FactorType, plane_prior)
        E1(FactorType, bearing_observation_2d) E1(FactorType, range_bearing_2d) E1(FactorType, pose_2d_prior) E1(FactorType, pose_2d_between)
        E1(FactorType, custom)
        E1(OptimizerMethod, GaussNewton) E1(OptimizerMethod, LevenbergMarquardt)
        E1(OptimizerStatus, SUCCESS) E1(OptimizerStatus, RUNNING) E1(OptimizerStatus, SINGULAR_HESSIAN) E1(OptimizerStatus, ILL_CONDITIONED)
        E1(OptimizerStatus, DIVERGED) E1(OptimizerStatus, FAILED)
#undef E1
        o.back() = '}';
        return o;
    }

    void run_case(Ctx& c)
    {
        Rng& r = c.rng;
        // a problem, plus single factors of any kind on variables of any regime
        Spec spec;
        bool modelled = false;
        size_t nmod = 0;
        if (r.p(0.75)) {
            GenOpt o = genOpt(r);
            o.size = r.p(0.01) ? r.range(15, 40) : r.range(1, 5);
            o.p2b_local = r.p(0.5);
            o.planes = r.p(0.4);
            o.perturb = r.logu(0.001, 0.3);
            o.noise = r.p(0.3) ? 0 : r.logu(0.01, 3);
            spec = genProblem(r, o).spec;
            modelled = true;
            nmod = spec.facs.size();
        }
        for (int k = r.range(spec.vars.empty() ? 1 : 0, 2); k > 0; k--) {
            Spec e = genFactorSpec(r, (FK)(k == 1 ? c.idx % NFK : r.range(0, NFK - 1)), true);
            int base = (int)spec.vars.size();
            for (auto& v : e.vars) {
                v.id += 3000000 * k;
                spec.vars.push_back(v);
            }
            for (auto& f : e.facs) {
                f.id += 50000000 * k;
                for (auto& v : f.v)
                    v += base;
                spec.facs.push_back(f);
            }
        }
        for (auto& f : spec.facs) {
            f.i0 = f.k == LV ? 0 : f.i0; // not available in Python
            if (r.p(0.2)) f.s1 = 1.0;
            if (r.p(0.2)) f.s2 = 1.0;
            if (f.k == P2B && r.p(0.2)) f.local = !f.local;
            if (f.k == PPB && r.p(0.2)) f.local = !f.local;
        }
        std::string out = str("{\"case\":", c.idx);
        if (c.idx < 8 || c.replay) {
            OptimizerStats st0;
            OptimizerSettings se0;
            SparseOptimizer so;
            out += ",\"enums\":" + enums() + ",\"default_settings\":" + settings(se0) + ",\"default_stats\":" + stats(st0) +
                   ",\"default_optimizer\":[" + stats(so.initial_stats_) + "," + stats(so.current_stats_) + "," + settings(so.settings()) + "]";
        }
        // variables
        Vector3d probe = randVec(r, 3, 3);
        std::vector<std::shared_ptr<Variable>> vars;
        std::vector<std::shared_ptr<Factor>> facs;
        out += ",\"vars\":[";
        for (size_t i = 0; i < spec.vars.size(); i++) {
            auto& v = spec.vars[i];
            vars.push_back(makeVar(v));
            auto rot = [&](const VectorXd& w) { return mat(refExp(V3L(w.cast<L>())).cast<double>()); };
            std::string a = v.k == ROT ? rot(v.init) : v.k == POSE && v.ctor ? rot(v.init.tail(3)) : "null";
            out += str(i ? "," : "", "{\"k\":\"", vkName(v.k), "\",\"id\":", v.id, ",\"c\":", boolean(v.c), ",\"ctor\":", v.ctor, ",\"init\":",
                       vec(v.init), ",\"R\":", a, ",\"state\":", varState(*vars[i], probe), "}");
        }
        out += "],\"facs\":[";
        std::vector<RVar> st;
        for (auto& v : vars)
            st.push_back(RVar::of(*v));
        for (size_t i = 0; i < spec.facs.size(); i++) {
            auto& f = spec.facs[i];
            facs.push_back(makeFac(f, vars));
            std::vector<long> vi(f.v.begin(), f.v.end());
            bool R = f.k == POP || f.k == RP;
            std::string model = "null";
            if (inDomain(f, st) && !(f.k == P2B && f.local)) model = vec(f.residual(st).cast<double>());
            out += str(i ? "," : "", "{\"k\":\"", fkName(f.k), "\",\"id\":", f.id, ",\"v\":", ints(vi), ",\"p\":", vec(f.p), ",\"R\":",
                       R ? mat(refExp(V3L(f.p.cast<L>())).cast<double>()) : std::string("null"), ",\"s1\":", num(f.s1), ",\"s2\":", num(f.s2),
                       ",\"a\":", num(f.a), ",\"local\":", boolean(f.local), ",\"scaled\":", boolean(f.scaled), ",\"state\":", facState(*facs[i]),
                       ",\"model\":", model, "}");
        }
        out += "],\"steps\":[";
        (void)modelled;
        (void)nmod;
        auto g = std::make_shared<FactorGraph>();
        bool firstStep = true;
        auto step = [&](const std::string& op, const std::string& args, const std::string& expect) {
            out += str(firstStep ? "" : ",", "[\"", op, "\",", args, ",", expect, "]");
            firstStep = false;
        };
        // additions, with refused duplicates in between
        std::vector<int> vo, fo;
        for (size_t i = 0; i < vars.size(); i++)
            if (spec.vars[i].in_graph) vo.push_back((int)i);
        for (size_t i = 0; i < facs.size(); i++)
            fo.push_back((int)i);
        if (r.p(0.5)) r.shuffle(vo), r.shuffle(fo);
        auto addVar = [&](int i) {
            step("add_variable", std::to_string(i), attempt([&] {
                     g->add_variable(vars[i]);
                     return std::string("null");
                 }));
        };
        auto addFac = [&](int i) {
            step("add_factor", std::to_string(i), attempt([&] {
                     g->add_factor(facs[i]);
                     return std::string("null");
                 }));
        };
        for (int i : vo) {
            addVar(i);
            if (r.p(0.05)) addVar(r.pick(vo));
        }
        for (int i : fo) {
            addFac(i);
            if (r.p(0.05)) addFac(r.pick(fo));
        }
        // extra priors so that the single factors do not make everything under-determined
        auto finalize = [&] {
            step("finalize", "null", attempt([&] {
                     g->finalize_structure();
                     return std::string("null");
                 }));
        };
        if (r.p(0.9)) finalize();
        auto sopt = std::make_shared<SparseOptimizer>();
        bool set = false;
        auto graphState = [&] {
            std::vector<long> vi, fi;
            for (auto& v : g->get_all_variables())
                vi.push_back(v->id());
            for (auto& f : g->get_all_factors())
                fi.push_back(f->id());
            return str("{\"num_variables\":", g->num_variables(), ",\"num_values\":", g->num_values(), ",\"num_residuals\":", g->num_residuals(),
                       ",\"jacobian_valid\":", boolean(g->jacobian_valid()), ",\"residual_valid\":", boolean(g->residual_valid()),
                       ",\"get_all_variables\":", ints(vi), ",\"get_all_factors\":", ints(fi), "}");
        };
        int n = r.range(6, 22);
        for (int q = 0; q < n; q++) {
            switch (r.range(0, 21)) {
            case 0: step("graph", "null", graphState()); break;
            case 1: step("compute_full_residual_vector", "null", attempt([&] { return vec(g->compute_full_residual_vector()); })); break;
            case 2: step("compute_full_jacobian_matrix", "null", attempt([&] { return mat(g->compute_full_jacobian_matrix()); })); break;
            case 3: step("compute_sparse_jacobian_matrix", "null", attempt([&] { return mat(MatrixXd(g->compute_sparse_jacobian_matrix())); })); break;
            case 4:
                step("compute_full_jacobian_and_residual", "null", attempt([&] {
                         g->compute_full_jacobian_and_residual();
                         return std::string("null");
                     }));
                step("jacobian", "null", attempt([&] { return mat(g->jacobian()); }));
                step("residual", "null", attempt([&] { return vec(g->residual()); }));
                break;
            case 5:
                step("compute_sparse_jacobian_matrix", "null", attempt([&] { return mat(MatrixXd(g->compute_sparse_jacobian_matrix())); }));
                step("sparse_jacobian", "null", attempt([&] { return mat(MatrixXd(g->sparse_jacobian())); }));
                break;
            case 6: {
                int id = r.p(0.8) ? r.pick(spec.vars).id : r.range(-5, 5);
                auto *v = g->get_variable(id);
                step("get_variable", std::to_string(id), v ? varState(*v, probe) : std::string("null"));
                break;
            }
            case 7: step("get_variable_vector", "null", attempt([&] { return vec(g->get_variable_vector()); })); break;
            case 8: {
                int m = std::max(0, g->num_values() + (r.p(0.2) ? r.range(-2, 2) : 0));
                VectorXd dx = randVec(r, m, r.logu(1e-6, 0.3));
                step("apply_increment", vec(dx), attempt([&] {
                         g->apply_increment(dx);
                         return std::string("null");
                     }));
                break;
            }
            case 9: {
                VectorXd x;
                try {
                    x = g->get_variable_vector();
                } catch (const std::exception&) {
                    break;
                }
                x += randVec(r, (int)x.size(), r.logu(1e-6, 0.3));
                if (r.p(0.15)) x.conservativeResize(std::max(0, (int)x.size() - 1));
                step("set_variable_values_from_vector", vec(x), attempt([&] {
                         g->set_variable_values_from_vector(x);
                         return std::string("null");
                     }));
                break;
            }
            case 10: {
                double tol = r.logu(1e-7, 1e-1);
                step("detailed_factor_test", num(tol), attempt([&] { return boolean(g->detailed_factor_test(tol)); }));
                break;
            }
            case 11:
            case 12: {
                // a mutator of one variable (those that exist in Python)
                size_t i = r.u64() % vars.size();
                VarOp o = genOp(r, spec.vars[i].k, vars[i]->size());
                bool p2 = spec.vars[i].k == P2;
                std::string name;
                if (o.t == VarOp::SET || o.t == VarOp::BADSET) name = "set_value_from_vector";
                if (o.t == VarOp::INC || o.t == VarOp::BADINC) name = "apply_increment";
                if (o.t == VarOp::CONST) name = "set_constant";
                if (o.t == VarOp::POS && p2) name = "set_pos_2d";
                if (o.t == VarOp::THETA && p2) name = "set_theta";
                if (name.empty()) break;
                std::string arg = name == "set_constant" ? boolean(o.flag) : name == "set_theta" ? num(o.x[0]) : vec(o.x);
                std::string e = attempt([&] {
                    if (name == "set_value_from_vector") vars[i]->set_value_from_vector(o.x);
                    if (name == "apply_increment") vars[i]->apply_increment(o.x);
                    if (name == "set_constant") vars[i]->set_constant(o.flag);
                    if (name == "set_pos_2d") dynamic_cast<Pose2DVariable&>(*vars[i]).set_pos_2d(Eigen::Vector2d(o.x));
                    if (name == "set_theta") dynamic_cast<Pose2DVariable&>(*vars[i]).set_theta(o.x[0]);
                    return std::string("null");
                });
                step("var", str("[", i, ",\"", name, "\",", arg, "]"), e);
                step("state", std::to_string(i), varState(*vars[i], probe));
                if (o.t == VarOp::CONST && r.p(0.8)) finalize();
                break;
            }
            case 13: {
                std::vector<int> irs;
                for (size_t i = 0; i < vars.size(); i++)
                    if (spec.vars[i].k == IR) irs.push_back((int)i);
                if (irs.empty()) break;
                int i = r.pick(irs);
                auto& v = dynamic_cast<InverseRangeVariable&>(*vars[i]);
                v.minimum_inverse_range_ = r.logu(1e-6, 1e-1);
                v.maximum_inverse_range_ = r.logu(1, 1e3);
                step("limits", str("[", i, ",", num(v.minimum_inverse_range_), ",", num(v.maximum_inverse_range_), "]"), "null");
                v.apply_increment(VectorXd::Constant(1, 0.001));
                step("var", str("[", i, ",\"apply_increment\",[0.001]]"), "null");
                step("state", std::to_string(i), varState(v, probe));
                break;
            }
            case 14: {
                size_t i = r.u64() % vars.size();
                auto w = vars[i]->clone();
                VectorXd x = randVec(r, w->size(), 0.1);
                std::string before = varState(*w, probe);
                w->apply_increment(x);
                step("clone", str("[", i, ",", vec(x), "]"), str("[", before, ",", varState(*w, probe), ",", varState(*vars[i], probe), "]"));
                break;
            }
            case 15: {
                size_t i = r.u64() % facs.size();
                step("factor", std::to_string(i), facState(*facs[i]));
                break;
            }
            case 16:
            case 17: {
                OptimizerSettings q = genSettings(r);
                q.max_num_iterations = std::min<size_t>(q.max_num_iterations, 8);
                finalize();
                std::string e = attempt([&] {
                    sopt->setup(g, q);
                    return std::string("null");
                });
                set = true;
                step("setup", settings(q), e);
                step("settings", "null", settings(sopt->settings()));
                [[fallthrough]];
            }
            case 18: {
                if (!set) break;
                step("optimize", "null", attempt([&] {
                         sopt->optimize();
                         return std::string("null");
                     }));
                step("stats", "null", str("[", stats(sopt->initial_stats_), ",", stats(sopt->current_stats_), "]"));
                for (size_t i = 0; i < vars.size(); i++)
                    step("state", std::to_string(i), varState(*vars[i], probe));
                if (r.p(0.3)) break;
                [[fallthrough]];
            }
            case 19: {
                if (!set) break;
                if (r.p(0.85))
                    step("prepare", "null", attempt([&] {
                             sopt->prepare_to_estimate_covariances();
                             return std::string("null");
                         }));
                for (int k = r.range(1, 4); k > 0; k--) {
                    size_t i = r.u64() % vars.size();
                    step("covariance", std::to_string(i), attempt([&] {
                             bool ok = false;
                             MatrixXd P = sopt->estimate_covariance(vars[i].get(), ok);
                             return str("[", mat(P), ",", boolean(ok), "]");
                         }));
                }
                break;
            }
            case 20: {
                Vector3d w = genRotvec(r);
                Eigen::Matrix3d R = ExpMapSO3(w);
                step("so3", vec(w), str("[", mat(R), ",", vec(LogMapSO3(R)), "]"));
                break;
            }
            case 21: {
                // what is printed is compared as well
                static const char *names[] = {"print_structure", "print_variables", "print_jacobian_and_residual", "print_jacobian_and_residual-detailed",
                                              "print_all_covariances", "detailed_factor_test-verbose"};
                int k = r.range(0, 5);
                if (k == 4 && !set) break;
                std::ostringstream text;
                auto *old = std::cout.rdbuf(text.rdbuf());
                std::string e = attempt([&] {
                    if (k == 0) g->print_structure();
                    if (k == 1) g->print_variables();
                    if (k == 2) g->print_jacobian_and_residual();
                    if (k == 3) g->print_jacobian_and_residual(true);
                    if (k == 4) sopt->print_all_covariances();
                    if (k == 5) g->detailed_factor_test(1e-3, true);
                    return std::string("null");
                });
                std::cout.rdbuf(old);
                step("print", str("\"", names[k], "\""), str("[", e, ",", js(text.str()), "]"));
                break;
            }
            }
        }
        step("graph", "null", graphState());
        out += "]}\n";
        if (c.replay) fprintf(stderr, "%s\n", spec.describe().c_str());
        if (fwrite(out.data(), 1, out.size(), stdout) != out.size()) throw std::runtime_error("pipe closed");
        fflush(stdout);
        c.eval();
    }
} // namespace vp
