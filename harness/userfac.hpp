// User-defined factors used to inject faults: a decorator around a shipped factor.
#pragma once
#include "model.hpp"
#include <new>
#include <stdexcept>

namespace vp
{
    // what a faulty factor may throw
    struct OddFault : std::exception {
        const char *what() const noexcept override { return "injected fault"; }
    };
    [[noreturn]] inline void throwSome(uint64_t which)
    {
        switch (which % 6) {
        case 0: throw std::logic_error("injected fault");
        case 1: throw std::out_of_range("injected fault");
        case 2: throw std::bad_alloc();
        case 3: throw OddFault();
        default: throw std::runtime_error("injected fault");
        }
    }

    struct FaultFactor : Factor {
        std::shared_ptr<Factor> in;
        // called after the inner factor; may change the result or throw
        std::function<void(VectorXd&)> onRes;
        std::function<void(std::vector<MatrixXd>&)> onJac;
        mutable long nres = 0, njac = 0;
        FaultFactor(std::shared_ptr<Factor> f) : in(f) { id_ = f->id(); }
        int residual_size() const override { return in->residual_size(); }
        VectorXd compute_residual() const override
        {
            nres++;
            VectorXd r = in->compute_residual();
            if (onRes) onRes(r);
            return r;
        }
        void compute_residual(Eigen::Ref<VectorXd> out) const override
        {
            nres++;
            VectorXd r = in->compute_residual();
            if (onRes) onRes(r);
            out = r;
        }
        void compute_jacobians(std::vector<MatrixXd>& J) const override
        {
            njac++;
            in->compute_jacobians(J);
            if (onJac) onJac(J);
        }
        std::vector<Variable *> variables() override { return in->variables(); }
        FactorType::FactorTypeEnum type() const override { return FactorType::custom; }
    };
} // namespace vp
