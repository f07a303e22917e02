// Noise models, uncertain quantities, factor variables and factors.
#include <Eigen/Eigenvalues>
#include "compound.hpp"
#include <wave/geometry/estimation.hpp>
#include <vector>
namespace wi = wave::internal;
using Tr = w::Translationd;
using RR = w::RelativeRotationd;
using Tw = w::Twistd;
using RM = w::RotationMd;
using RQ = w::RotationQd;
using TM = w::RigidTransformMd;
using TQ = w::RigidTransformQd;
using Sc = w::Scalar<double>;
template <int R, int C> using Mat = Eigen::Matrix<double, R, C>;

// Eigen's iterative eigenvalue solver is trusted: it is given a matrix Q D^2 Q^T with known Q and D
struct Known {
    M3 Q, cov, isq, sq;
    V3 d;
};
static Known g_known;
static int g_calls;
struct KnownSolver {
    Known k;
    template <class M> explicit KnownSolver(const M &m) : k(g_known) {
        ++g_calls;
        eqm(M3(m), k.cov, "the matrix decomposed is the covariance");
    }
    M3 operatorInverseSqrt() const { return k.isq; }
    M3 operatorSqrt() const { return k.sq; }
    M3 eigenvectors() const { return k.Q; }
    V3 eigenvalues() const { return k.d.cwiseProduct(k.d); }
};
namespace Eigen {
template <class A, class B> class SelfAdjointEigenSolver<w::BlockMatrix<A, B>> : public KnownSolver {
 public:
    using KnownSolver::KnownSolver;
};
}  // namespace Eigen
struct Cov {
    Cov() {
        RotIn Q;
        V3 d;
        wg_real(d.data(), 3, -1);
        for (int i = 0; i < 3; ++i) wg_sign(d.data() + i, 1);
        g_known.Q = Q.R;
        g_known.d = d;
        g_known.cov = Q.R * V3(d.cwiseProduct(d)).asDiagonal() * Q.R.transpose();
        g_known.isq = Q.R * V3(1 / d(0), 1 / d(1), 1 / d(2)).asDiagonal() * Q.R.transpose();
        g_known.sq = Q.R * d.asDiagonal() * Q.R.transpose();
    }
};
template <class M> void real(M &m, int d = -1) { wg_real(m.data(), m.size(), d); }
#if PART == 1
extern "C" void G_diagonal_vector() {
    V3 s;
    real(s);
    const auto n = w::DiagonalNoise<Tr>::FromStdDev(s);
    V3 var = s.cwiseProduct(s), inv = s.cwiseInverse();
    eqm(M3(n.covariance()), M3(var.asDiagonal()), "covariance");
    eqm(M3(n.inverseSqrtCov()), M3(inv.asDiagonal()), "inverseSqrtCov");
    eqm(M3(w::DiagonalNoise<Tr>::FromStdDev(s).covariance()), M3(var.asDiagonal()), "covariance of a temporary");
    eqm(M3(w::DiagonalNoise<Tr>::FromStdDev(2 * s).inverseSqrtCov()), M3(M3(inv.asDiagonal()) / 2), "of an expression");
    const auto c = n;
    eqm(M3(c.covariance()), M3(var.asDiagonal()), "copy");
    auto &&v = w::DiagonalNoise<Tr>::FromStdDev(s).covariance();
    eqm(M3(v), M3(var.asDiagonal()), "kept covariance of a temporary");
}
extern "C" void G_diagonal_numbers() {
    V3 s;
    real(s);
    const auto n = w::DiagonalNoise<RR>::FromStdDev(s(0), s(1), s(2));
    V3 var = s.cwiseProduct(s), inv = s.cwiseInverse();
    eqm(M3(n.covariance()), M3(var.asDiagonal()), "covariance");
    eqm(M3(n.inverseSqrtCov()), M3(inv.asDiagonal()), "inverseSqrtCov");
    double t;
    wg_real(&t, 1, -1);
    const auto m = w::DiagonalNoise<Sc>::FromStdDev(t);
    eqs(m.covariance().diagonal()(0), t * t, "variance of a scalar");
    eqs(m.inverseSqrtCov().diagonal()(0), 1 / t, "inverse deviation of a scalar");
}
extern "C" void G_diagonal_rotation() {
    V3 s;
    real(s);
    const auto n = w::DiagonalNoise<RM>::FromStdDev(s);
    eqm(M3(n.covariance()), M3(V3(s.cwiseProduct(s)).asDiagonal()), "covariance");
    V6 u;
    real(u);
    const auto m = w::DiagonalNoise<TM>::FromStdDev(u);
    eqm(M6(m.covariance()), M6(V6(u.cwiseProduct(u)).asDiagonal()), "covariance of a transform");
    eqm(M6(m.inverseSqrtCov()), M6(V6(u.cwiseInverse()).asDiagonal()), "inverseSqrtCov of a transform");
    eqm(V3(m.covariance().diagonal().tail<3>()), V3(u.tail<3>().cwiseProduct(u.tail<3>())), "translation part");
    const auto k = w::DiagonalNoise<TM>::FromStdDev(u(0), u(1), u(2), u(3), u(4), u(5));
    eqm(M6(k.covariance()), M6(V6(u.cwiseProduct(u)).asDiagonal()), "covariance from six numbers");
    eqm(M6(k.inverseSqrtCov()), M6(V6(u.cwiseInverse()).asDiagonal()), "inverseSqrtCov from six numbers");
}
extern "C" void G_full() {
    Cov c;
    g_calls = 0;
    const auto n = w::FullNoise<Tr>::FromCovariance(g_known.cov);
    eqm(n.covariance(), g_known.cov, "covariance");
    eqm(n.inverseSqrtCov(), g_known.isq, "inverseSqrtCov");
    const auto m = w::FullNoise<RM>::FromCovariance(M3(g_known.cov));
    eqm(m.covariance(), g_known.cov, "covariance from a temporary");
    eqm(m.inverseSqrtCov(), g_known.isq, "inverseSqrtCov from a temporary");
    const auto k = w::FullNoise<Tr>::FromCovariance(0.5 * g_known.cov + 0.5 * g_known.cov);
    eqm(k.covariance(), g_known.cov, "covariance from an expression");
    const auto d = n;
    eqm(d.inverseSqrtCov(), g_known.isq, "copy");
    auto &&v = w::FullNoise<Tr>::FromCovariance(g_known.cov).covariance();
    eqm(M3(v), g_known.cov, "kept covariance of a temporary");
    auto &&x = w::FullNoise<Tr>::FromCovariance(g_known.cov).inverseSqrtCov();
    eqm(M3(x), g_known.isq, "kept inverseSqrtCov of a temporary");
}
#ifndef WG_FLOAT  // variables of factors are double
extern "C" void G_variables() {
    w::FactorVariable<Tr> v;
    V3 a, b;
    real(a), real(b);
    v.value() = Tr{a};
    wg_i(v.size(), 3, "size of a translation");
    eqm(V3(v.data()[0], v.data()[1], v.data()[2]), a, "data() is the value");
    w::FactorVariableBase &base = v;
    for (int i = 0; i < 3; ++i) base.data()[i] = b[i];
    const auto &k = v;
    eqm(k.value().value(), b, "writing data() changes the value");
    wg_i(base.size(), 3, "size through the base");
    auto p = std::make_shared<w::FactorVariable<TM>>();
    SeIn X;
    p->value() = mk<TM>(X);
    wg_i(p->size(), 16, "size of a transform");
    M4 m = Eigen::Map<M4>(p->data());
    eqm(m, X.T, "data() of a transform");
    w::FactorVariable<w::RotationMFd<FA, FB>> f;
    wg_i(f.size(), 9, "size of a framed rotation");
    eqm(w::FactorVariable<Tr>(v).value().value(), b, "value of a temporary");
}
#endif
#elif PART == 2
struct Dist {
    template <class A, class B> auto operator()(const w::TranslationBase<A> &a, const w::TranslationBase<B> &b) const {
        return (a.derived() - b.derived()).norm();
    }
};
struct Act {
    template <class A, class B> auto operator()(const w::RigidTransformBase<A> &a, const w::TranslationBase<B> &b) const {
        return inverse(a.derived()) * b.derived();
    }
};
struct Log {
    template <class A> auto operator()(const w::RotationBase<A> &a) const { return log(a.derived()); }
};
extern "C" void G_distance() {
    VecIn A(0), B(3);
    double z, s;
    wg_real(&z, 1, -1), wg_real(&s, 1, -1);
    using Var = w::FactorVariable<Tr>;
    const auto meas = w::Uncertain<Sc, w::DiagonalNoise>{z, w::DiagonalNoise<Sc>::FromStdDev(s)};
    auto p = std::make_shared<Var>();
    auto q = std::make_shared<Var>();
    const auto f = w::makeFactor<Dist>(meas, p, q);
    wg_i(f.size(), 2, "number of variables");
    wg_i(f.begin()->get() == p.get(), 1, "first variable");
    wg_i((f.begin() + 1)->get() == q.get(), 1, "second variable");
    wg_i(f.end() - f.begin(), 2, "range");
    wg_i(f.isPerfectPrior(), 0, "not a perfect prior");
    const w::FactorBase &base = f;
    wg_i(base.size(), 2, "number of variables through the base");
    Tr a{A.v}, b{B.v};
    const double d = (A.v - B.v).norm();
    const auto r = f.evaluate(a, b);
    eqs(r(0), (d - z) / s, "normalised residual");
    const auto [v, ja, jb] = f.evaluateWithJacobians(a, b);
    eqs(v(0), (d - z) / s, "normalised residual");
    jacV(Mat<1, 1>(d), ja, 0, "derivative of the measurement function");
    jacV(Mat<1, 1>(d), jb, 3, "derivative of the measurement function");
}
extern "C" void G_vector_diag() {
    SeIn X(0);
    VecIn P(6);
    V3 z, s;
    real(z), real(s);
    const auto meas = w::Uncertain<Tr, w::DiagonalNoise>{Tr{z}, w::DiagonalNoise<Tr>::FromStdDev(s)};
    const auto f = w::makeFactor<Act>(meas, std::make_shared<w::FactorVariable<TM>>(), std::make_shared<w::FactorVariable<Tr>>());
    TM x = mk<TM>(X);
    Tr p{P.v};
    V3 h = X.R.transpose() * (P.v - X.t);
    V3 r = (h - z).cwiseQuotient(s);
    eqm(f.evaluate(x, p), r, "normalised residual");
    const auto [v, jx, jp] = f.evaluateWithJacobians(x, p);
    eqm(v, r, "normalised residual");
    jacV(h, jx, 0, "derivative of the measurement function");
    jacV(h, jp, 6, "derivative of the measurement function");
}
extern "C" void G_vector_full() {
    Cov c;
    SeIn X(0);
    VecIn P(6);
    V3 z;
    real(z);
    const auto meas = w::Uncertain<Tr, w::FullNoise>{Tr{z}, w::FullNoise<Tr>::FromCovariance(g_known.cov)};
    const auto f = w::makeFactor<Act>(meas, std::make_shared<w::FactorVariable<TM>>(), std::make_shared<w::FactorVariable<Tr>>());
    TM x = mk<TM>(X);
    Tr p{P.v};
    V3 h = X.R.transpose() * (P.v - X.t);
    V3 r = g_known.isq * (h - z);
    eqm(f.evaluate(x, p), r, "normalised residual");
    const auto [v, jx, jp] = f.evaluateWithJacobians(x, p);
    eqm(v, r, "normalised residual");
    jacV(h, jp, 6, "derivative of the measurement function");
    // whitened: r^T r = e^T cov^-1 e
    eqs(v.dot(v), (h - z).dot(g_known.isq * g_known.isq * (h - z)), "squared residual is the Mahalanobis distance");
}
extern "C" void G_rotation_log() {
    RotIn A(0);
    V3 z, s;
    real(z), real(s);
    const auto meas = w::Uncertain<RR, w::DiagonalNoise>{RR{z}, w::DiagonalNoise<RR>::FromStdDev(s)};
    const auto f = w::makeFactor<Log>(meas, std::make_shared<w::FactorVariable<RM>>());
    RM a = mk<RM>(A);
    V3 h = w::eval(log(a)).value();
    eqm(f.evaluate(a), V3((h - z).cwiseQuotient(s)), "normalised residual");
    const auto [v, ja] = f.evaluateWithJacobians(a);
    eqm(v, V3((h - z).cwiseQuotient(s)), "normalised residual");
    jacV(h, ja, 0, "derivative of the measurement function");
}
extern "C" void G_framed() {
    SeIn X(0);
    VecIn P(6);
    V3 z, s;
    real(z), real(s);
    using L = w::TranslationFd<FB, FB, FC>;
    const auto meas = w::Uncertain<L, w::DiagonalNoise>{L{z}, w::DiagonalNoise<L>::FromStdDev(s)};
    using TF = w::RigidTransformMFd<FA, FB>;
    using PF = w::TranslationFd<FA, FA, FC>;
    const auto f = w::makeFactor<Act>(meas, std::make_shared<w::FactorVariable<TF>>(), std::make_shared<w::FactorVariable<PF>>());
    TF x = mk<TF>(X);
    PF p{P.v};
    V3 h = X.R.transpose() * (P.v - X.t);
    eqm(f.evaluate(x, p), V3((h - z).cwiseQuotient(s)), "normalised residual");
    const auto [v, jx, jp] = f.evaluateWithJacobians(x, p);
    jacV(h, jx, 0, "derivative of the measurement function");
    jacV(h, jp, 6, "derivative of the measurement function");
}
// the measurement outlives the object it was made from
__attribute__((noinline)) static auto make(double z, double s) {
    const auto meas = w::Uncertain<Sc, w::DiagonalNoise>{z, w::DiagonalNoise<Sc>::FromStdDev(s)};
    return w::makeFactor<Dist>(meas, std::make_shared<w::FactorVariable<Tr>>(), std::make_shared<w::FactorVariable<Tr>>());
}
extern "C" void G_factor_owns() {
    VecIn A(0), B(3);
    double z, s;
    wg_real(&z, 1, -1), wg_real(&s, 1, -1);
    const auto f = make(z, s);
    eqs(f.evaluate(Tr{A.v}, Tr{B.v})(0), ((A.v - B.v).norm() - z) / s, "normalised residual");
    wg_i((*f.begin())->size(), 3, "variables are kept alive");
    auto g = f;
    eqs(g.evaluate(Tr{A.v}, Tr{B.v})(0), ((A.v - B.v).norm() - z) / s, "copied factor");
    wg_i(g.begin()->get() == f.begin()->get(), 1, "a copy refers to the same variables");
}
#elif PART == 3
// compound residuals
struct TwoVec {
    template <class A, class B> auto operator()(const w::TranslationBase<A> &a, const w::TranslationBase<B> &b) const {
        return wi::makeCompound<ex::Two>((a.derived() - b.derived()).norm(), b.derived().norm());
    }
};
extern "C" void G_compound() {
    VecIn A(0), B(3);
    double z[2], s[2];
    wg_real(z, 2, -1), wg_real(s, 2, -1);
    using C = ex::Two<Sc, Sc>;
    const auto meas = w::Uncertain<C, w::DiagonalNoise>{C{z[0], z[1]}, w::DiagonalNoise<C>::FromStdDev(s[0], s[1])};
    const auto f = w::makeFactor<TwoVec>(meas, std::make_shared<w::FactorVariable<Tr>>(), std::make_shared<w::FactorVariable<Tr>>());
    Tr a{A.v}, b{B.v};
    const double d = (A.v - B.v).norm(), n = B.v.norm();
    const auto r = f.evaluate(a, b);
    eqs(r(0), (d - z[0]) / s[0], "first element");
    eqs(r(1), (n - z[1]) / s[1], "second element");
    const auto [v, ja, jb] = f.evaluateWithJacobians(a, b);
    eqs(v(0), (d - z[0]) / s[0], "first element");
    eqs(v(1), (n - z[1]) / s[1], "second element");
    jacV(Mat<2, 1>(d, n), ja, 0, "derivative of the measurement function");
    jacV(Mat<2, 1>(d, n), jb, 3, "derivative of the measurement function");
}
#endif
