#ifndef VERIF_GRAPH_HPP
#define VERIF_GRAPH_HPP
/*
 * An interpreter of operation graphs written for the checks: it reads the nodes
 * of a recorded graph directly, independently of the evaluators of the library.
 */
#include "cgen.hpp"

namespace vf {

template<class B, class T = B>
class Interp {
    CodeHandler<B>& h_;
    const std::vector<T>& x_;
    std::map<const OperationNode<B>*, T> memo_;
    std::set<const OperationNode<B>*> active_;
public:
    Interp(CodeHandler<B>& h, const std::vector<T>& x) : h_(h), x_(x) {}

    T value(const CG<B>& a) {
        if (a.isParameter()) return a.getValue();
        return node(*a.getOperationNode());
    }
    T arg(const Argument<B>& a) {
        if (a.getOperation() != nullptr) return node(*a.getOperation());
        return *a.getParameter();
    }
    T node(const OperationNode<B>& n) {
        auto it = memo_.find(&n);
        if (it != memo_.end()) return it->second;
        if (!active_.insert(&n).second) throw pbt::Fail("an operation depends on itself");
        T r = compute(n);
        active_.erase(&n);
        memo_[&n] = r;
        return r;
    }
private:
    static T sgn(T a) { return a > 0 ? T(1) : a == 0 ? T(0) : T(-1); }
    T compute(const OperationNode<B>& n) {
        const auto& g = n.getArguments();
        auto A = [&](size_t i) -> T { if (i >= g.size()) throw pbt::Fail("graph node with missing arguments"); return arg(g[i]); };
        switch (n.getOperationType()) {
            case CGOpCode::Inv: {
                size_t i = h_.getIndependentVariableIndex(n);
                if (i >= x_.size()) throw pbt::Fail("invalid index of an independent variable");
                return x_[i];
            }
            case CGOpCode::Assign: case CGOpCode::Alias: case CGOpCode::Pri: return A(0);
            case CGOpCode::Abs: return std::fabs(A(0));
            case CGOpCode::Acos: return std::acos(A(0));
            case CGOpCode::Acosh: return std::acosh(A(0));
            case CGOpCode::Add: return A(0) + A(1);
            case CGOpCode::Asin: return std::asin(A(0));
            case CGOpCode::Asinh: return std::asinh(A(0));
            case CGOpCode::Atan: return std::atan(A(0));
            case CGOpCode::Atanh: return std::atanh(A(0));
            case CGOpCode::ComLt: return A(0) < A(1) ? A(2) : A(3);
            case CGOpCode::ComLe: return A(0) <= A(1) ? A(2) : A(3);
            case CGOpCode::ComEq: return A(0) == A(1) ? A(2) : A(3);
            case CGOpCode::ComGe: return A(0) >= A(1) ? A(2) : A(3);
            case CGOpCode::ComGt: return A(0) > A(1) ? A(2) : A(3);
            case CGOpCode::ComNe: return A(0) != A(1) ? A(2) : A(3);
            case CGOpCode::Cosh: return std::cosh(A(0));
            case CGOpCode::Cos: return std::cos(A(0));
            case CGOpCode::Div: return A(0) / A(1);
            case CGOpCode::Erf: return std::erf(A(0));
            case CGOpCode::Erfc: return std::erfc(A(0));
            case CGOpCode::Exp: return std::exp(A(0));
            case CGOpCode::Expm1: return std::expm1(A(0));
            case CGOpCode::Log: return std::log(A(0));
            case CGOpCode::Log1p: return std::log1p(A(0));
            case CGOpCode::Mul: return A(0) * A(1);
            case CGOpCode::Pow: return std::pow(A(0), A(1));
            case CGOpCode::Sign: return sgn(A(0));
            case CGOpCode::Sinh: return std::sinh(A(0));
            case CGOpCode::Sin: return std::sin(A(0));
            case CGOpCode::Sqrt: return std::sqrt(A(0));
            case CGOpCode::Sub: return A(0) - A(1);
            case CGOpCode::Tanh: return std::tanh(A(0));
            case CGOpCode::Tan: return std::tan(A(0));
            case CGOpCode::UnMinus: return -A(0);
            default: {
                std::ostringstream o;
                o << "unexpected operation in the graph: " << n.getOperationType();
                throw pbt::Fail(o.str());
            }
        }
    }
};

/** structural comparison with another graph: the same operations on the same arguments */
template<class B>
std::string graphText(CodeHandler<B>& h, const CG<B>& a, size_t depth = 0) {
    std::ostringstream o;
    o.precision(17);
    if (a.isParameter()) { o << a.getValue(); return o.str(); }
    std::function<void(const OperationNode<B>&)> rec = [&](const OperationNode<B>& n) {
        if (n.getOperationType() == CGOpCode::Inv) { o << "x" << h.getIndependentVariableIndex(n); return; }
        o << (int) n.getOperationType() << "(";
        for (const auto& g : n.getArguments()) {
            if (g.getOperation()) rec(*g.getOperation()); else if (g.getParameter()) o << *g.getParameter(); else o << "?";
            o << ",";
        }
        o << ")";
    };
    (void) depth;
    rec(*a.getOperationNode());
    return o.str();
}

}
#endif
