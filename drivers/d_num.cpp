// Numerical Jacobians: column i is (f(x [+] h e_i) [-] f(x)) / h with h = sqrt(machine epsilon), the box
// operators being those of the leaf perturbed and of the value.
#include "compound.hpp"
#include <wave/geometry/dynamic.hpp>
namespace wi = wave::internal;
using RM = w::RotationMd;
using RQ = w::RotationQd;
using TM = w::RigidTransformMd;
using TQ = w::RigidTransformQd;
using Tr = w::Translationd;
using Pt = w::Pointd;
using RR = w::RelativeRotationd;
using Tw = w::Twistd;
using Sc = w::Scalar<double>;
#ifdef WG_FLOAT
#define H std::sqrt(0x1p-23f)
#else
static constexpr double H = 0x1p-26;  // sqrt(2^-52)
#endif
inline double flat(double x) { return x; }
template <class D> typename D::PlainObject flat(const Eigen::MatrixBase<D> &x) { return x; }
template <class A> Eigen::Matrix<double, wi::traits<A>::TangentSize, 1> vec(const w::ExpressionBase<A> &x) {
    Eigen::Matrix<double, wi::traits<A>::TangentSize, 1> v;
    if constexpr (wi::traits<A>::TangentSize == 1) v(0) = x.derived().value();
    else v = x.derived().value();
    return v;
}
// f: leaf -> expression; tangent type of the leaf L is TL
template <class TL, class F, class L> auto quotient(F f, const L &x) {
    constexpr int C = wi::traits<L>::TangentSize;
    auto fx = w::eval(f(x));
    constexpr int Rr = wi::traits<decltype(fx)>::TangentSize;
    Eigen::Matrix<double, Rr, C> j;
    for (int i = 0; i < C; ++i) {
        Eigen::Matrix<double, C, 1> d = Eigen::Matrix<double, C, 1>::Zero();
        d(i) = H;
        const L y = [&]() -> L {
            if constexpr (C == 1) return L{x + TL{d(0)}};
            else return L{x + TL{d}};
        }();
        auto fy = w::eval(f(y));
        auto diff = w::eval(fy - fx);
        j.col(i) = vec(diff) / H;
    }
    return j;
}
template <class TL, class F, class L> void num(F f, const L &x, const char *l) {
    auto e = f(x);
    auto q = quotient<TL>(f, x);
    eqm(w::evaluateNumericalJacobian(e, x), q, l);
    auto t = w::evaluateNumericalJacobians(e, x);
    static_assert(std::tuple_size<decltype(t)>{} == 1, "");
    eqm(std::get<0>(t), q, l);
}
#if PART == 1
// vectors and scalars
#define OPS VecIn P(0), S(3); double s_; wg_real(&s_, 1, 6); Tr p{P.v}, q{S.v}; RR u{S.v}; Sc s{s_}; Pt a{P.v}, b{S.v};
extern "C" void G_sum() { OPS num<Tr>([&](auto &x) { return x + q; }, p, "p + q"); num<Tr>([&](auto &x) { return p + x; }, q, "p + q wrt q"); num<Tr>([&](auto &x) { return x + x; }, p, "p + p"); }
extern "C" void G_sub() { OPS num<Tr>([&](auto &x) { return x - q; }, p, "p - q"); num<Tr>([&](auto &x) { return p - x; }, q, "p - q wrt q"); num<Tr>([&](auto &x) { return -x - (x - q); }, p, "-p - (p - q)"); }
extern "C" void G_pts() { OPS num<Tr>([&](auto &x) { return x - b; }, a, "a - b"); num<Tr>([&](auto &x) { return a - x; }, b, "a - b wrt b"); num<Tr>([&](auto &x) { return x + q; }, a, "a + q"); }
extern "C" void G_sq() { OPS num<Tr>([&](auto &x) { return x.squaredNorm(); }, p, "squaredNorm"); num<Tr>([&](auto &x) { return dot(x, q); }, p, "dot"); num<Tr>([&](auto &x) { return dot(x, x); }, p, "dot(p, p)"); }
extern "C" void G_scale() { OPS num<Tr>([&](auto &x) { return s * x; }, p, "s p"); num<Tr>([&](auto &x) { return x / s; }, p, "p / s"); }
extern "C" void G_absent() { OPS auto e = p + p; eqm(w::evaluateNumericalJacobian(e, q), M3::Zero(), "a leaf that does not occur"); }
extern "C" void G_several() {
    OPS
    auto e = p - (q + p) + q - q;
    auto t = w::evaluateNumericalJacobians(e, q, p);
    static_assert(std::tuple_size<decltype(t)>{} == 2, "");
    auto jq = quotient<Tr>([&](auto &x) { return p - (x + p) + x - x; }, q);
    auto jp = quotient<Tr>([&](auto &x) { return x - (q + x) + q - q; }, p);
    eqm(std::get<0>(t), jq, "wrt q");
    eqm(std::get<1>(t), jp, "wrt p");
}
#elif PART == 2
#define OPS RotIn A(0); SeIn X(3); VecIn P(9); RM m = mk<RM>(A); RQ q = mk<RQ>(A); TM t = mk<TM>(X); TQ c = mk<TQ>(X); Tr p{P.v};
extern "C" void G_rot() { OPS num<RR>([&](auto &x) { return x * p; }, m, "R p wrt R"); num<Tr>([&](auto &x) { return m * x; }, p, "R p wrt p"); }
extern "C" void G_rotq() { OPS num<RR>([&](auto &x) { return x * p; }, q, "R p wrt R"); num<Tr>([&](auto &x) { return q * x; }, p, "R p wrt p"); }
extern "C" void G_irot() { OPS num<RR>([&](auto &x) { return inverse(x) * p; }, m, "R^-1 p wrt R"); num<RR>([&](auto &x) { return p + x * p; }, q, "p + R p wrt R"); }
extern "C" void G_act() { OPS num<Tw>([&](auto &x) { return x * p; }, t, "T p wrt T"); num<Tr>([&](auto &x) { return t * x; }, p, "T p wrt p"); }
extern "C" void G_actq() { OPS num<Tr>([&](auto &x) { return c * x; }, p, "T p wrt p"); }
extern "C" void G_tr() { OPS num<Tw>([&](auto &x) { return x.translation(); }, t, "translation of T"); }
extern "C" void G_framed() {
    OPS
    w::RotationMFd<FA, FB> r{A.R};
    w::TranslationFd<FB, FB, FC> v{P.v};
    auto e = r * v;
    eqm(w::evaluateNumericalJacobian(e, v), quotient<Tr>([&](auto &x) { return m * x; }, p), "R p wrt p");
    eqm(w::evaluateNumericalJacobian(e, r), quotient<RR>([&](auto &x) { return x * p; }, m), "R p wrt R");
}
#elif PART == 3
#define OPS RotIn A(0), B(3); VecIn P(9), S(3); double s_, r_; wg_real(&s_, 1, 6); wg_real(&r_, 1, 6); RM m = mk<RM>(A), n = mk<RM>(B); Tr p{P.v}, q{S.v}; Sc s{s_}, r{r_};
extern "C" void G_scalar() { OPS num<Sc>([&](auto &x) { return x * r; }, s, "s r"); num<Sc>([&](auto &x) { return s / x; }, r, "s / r"); num<Sc>([&](auto &x) { return x * p; }, s, "s p"); num<Sc>([&](auto &x) { return x * x + r - x; }, s, "s s + r - s"); }
template <class... X> auto tri(X &&... x) { return wi::makeCompound<ex::Tri>(std::forward<X>(x)...); }
extern "C" void G_compound() {
    OPS
    RR u{S.v};
    auto e = tri(s * p, dot(p, q), u);
    auto jp = w::evaluateNumericalJacobian(e, p);
    auto js = w::evaluateNumericalJacobian(e, s);
    auto ju = w::evaluateNumericalJacobian(e, u);
    Eigen::Matrix<double, 7, 3> kp = Eigen::Matrix<double, 7, 3>::Zero(), ku = kp;
    Eigen::Matrix<double, 7, 1> ks = Eigen::Matrix<double, 7, 1>::Zero();
    kp.topRows<3>() = s_ * M3::Identity();
    kp.row(3) = S.v.transpose();
    ks.head<3>() = P.v;
    ku.bottomRows<3>() = M3::Identity();
    eqm(jp, kp, "compound wrt p (affine)");
    eqm(js, ks, "compound wrt s (affine)");
    eqm(ju, ku, "compound wrt u (affine)");
}
extern "C" void G_norm() { OPS num<Tr>([&](auto &x) { return x.norm(); }, p, "|p|"); num<Tr>([&](auto &x) { return (x - q).norm(); }, p, "|p - q|"); }
#elif PART == 4
// through dynamic expressions: f builds the static expression, g the dynamic one over the same leaves
#define OPS RotIn A(0); VecIn P(3), S(6); double s_; wg_real(&s_, 1, 9); RM m = mk<RM>(A); RQ q = mk<RQ>(A); Tr p{P.v}, r{S.v}; Sc s{s_};
template <class TL, class E, class F, class L> void dyn(const E &e, F f, const L &x, const char *l) {
    auto k = quotient<TL>(f, x);
    eqm(w::evaluateNumericalJacobian(e, x), k, l);
    auto t = w::evaluateNumericalJacobians(e, x);
    eqm(std::get<0>(t), k, l);
}
extern "C" void G_makeDynamic() {
    OPS
    const auto d = makeDynamic(m * p + r);
    dyn<Tr>(d, [&](auto &x) { return m * x + r; }, p, "Dynamic wrt p");
    dyn<RR>(d, [&](auto &x) { return x * p + r; }, m, "Dynamic wrt R");
    dyn<Tr>(d, [&](auto &x) { return m * p + x; }, r, "Dynamic wrt r");
}
extern "C" void G_ref() {
    OPS
    const auto d = makeDynamic(p - r);
    const auto u = ref(d);
    dyn<Tr>(u, [&](auto &x) { return x - r; }, p, "reference wrt p");
    dyn<Tr>(u, [&](auto &x) { return p - x; }, r, "reference wrt r");
    dyn<Tr>(u + p, [&](auto &x) { return x - r + x; }, p, "reference + p wrt p");
}
extern "C" void G_proxy() {
    OPS
    const w::Proxy<Tr> x{q * p};
    dyn<Tr>(x, [&](auto &y) { return q * y; }, p, "proxy wrt p");
    dyn<RR>(x, [&](auto &y) { return y * p; }, q, "proxy wrt R");
    dyn<Tr>(x + p, [&](auto &y) { return q * y + y; }, p, "proxy + p wrt p");
    dyn<Tr>(m * x - r, [&](auto &y) { return m * (q * y) - r; }, p, "R proxy - r wrt p");
    dyn<RR>(m * x - r, [&](auto &y) { return y * (q * p) - r; }, m, "R proxy - r wrt R");
}
extern "C" void G_nested() {
    OPS
    const w::Proxy<Tr> x{p + r};
    const w::Proxy<Tr> y{m * x};
    dyn<Tr>(y, [&](auto &v) { return m * (v + r); }, p, "proxy of proxy wrt p");
    dyn<RR>(y, [&](auto &v) { return v * (p + r); }, m, "proxy of proxy wrt R");
    dyn<Tr>(s * y, [&](auto &v) { return s * (m * (p + v)); }, r, "s (proxy of proxy) wrt r");
    dyn<Sc>(s * y, [&](auto &v) { return v * (m * (p + r)); }, s, "s (proxy of proxy) wrt s");
}
extern "C" void G_rotproxy() {
    OPS
    RotIn N(10);
    RM n = mk<RM>(N);
    const w::Proxy<RM> x{m * n};
    dyn<RR>(x * p, [&](auto &v) { return (v * n) * p; }, m, "rotation proxy applied, wrt R");
    dyn<RR>(x * p, [&](auto &v) { return (m * v) * p; }, n, "rotation proxy applied, wrt N");
    dyn<Tr>(x * p, [&](auto &v) { return (m * n) * v; }, p, "rotation proxy applied, wrt p");
}
extern "C" void G_rebound() {
    OPS
    w::Proxy<Tr> x{p + r};
    auto e = m * x;
    dyn<Tr>(e, [&](auto &v) { return m * (v + r); }, p, "before rebinding, wrt p");
    x = r - p;
    dyn<Tr>(e, [&](auto &v) { return m * (v + r); }, p, "expression built before, wrt p");
    dyn<Tr>(m * x, [&](auto &v) { return m * (r - v); }, p, "after rebinding, wrt p");
    dyn<Tr>(m * x, [&](auto &v) { return m * (v - p); }, r, "after rebinding, wrt r");
}
extern "C" void G_absent() {
    OPS
    const w::Proxy<Tr> x{m * p};
    Tr o{P.v};
    eqm(w::evaluateNumericalJacobian(x, o), M3::Zero(), "a leaf that does not occur");
}
extern "C" void G_several() {
    OPS
    const w::Proxy<Tr> x{m * p};
    auto t = w::evaluateNumericalJacobians(x + r, r, p);
    eqm(std::get<0>(t), quotient<Tr>([&](auto &v) { return m * p + v; }, r), "wrt r");
    eqm(std::get<1>(t), quotient<Tr>([&](auto &v) { return m * v + r; }, p), "wrt p");
}
#elif PART == 5
// dynamic expressions over leaves of every dimension
#define OPS SeIn A(0), B(6); VecIn P(12), S(15); double s_; wg_real(&s_, 1, 18); TM m = mk<TM>(A); TQ q = mk<TQ>(B); Tr p{P.v}, r{S.v}; Sc s{s_};
template <class TL, class E, class F, class L> void dyn(const E &e, F f, const L &x, const char *l) {
    auto k = quotient<TL>(f, x);
    eqm(w::evaluateNumericalJacobian(e, x), k, l);
    auto t = w::evaluateNumericalJacobians(e, x);
    eqm(std::get<0>(t), k, l);
}
extern "C" void G_dyn_transform() {
    OPS
    const auto d = makeDynamic(m * p + r);
    dyn<Tw>(d, [&](auto &x) { return x * p + r; }, m, "Dynamic wrt T");
    dyn<Tr>(d, [&](auto &x) { return m * x + r; }, p, "Dynamic wrt p");
    dyn<Tw>(ref(d), [&](auto &x) { return x * p + r; }, m, "reference wrt T");
}
extern "C" void G_dyn_proxy() {
    OPS
    const w::Proxy<Tr> x{m * p};
    dyn<Tw>(x, [&](auto &y) { return y * p; }, m, "proxy wrt T");
    dyn<Tw>(r - x, [&](auto &y) { return r - y * p; }, m, "r - proxy wrt T");
}
extern "C" void G_dyn_part() {
    OPS
    const auto d = makeProxy(m.translation());
    dyn<Tw>(d, [&](auto &x) { return x.translation(); }, m, "translation of T through a proxy");
    const auto e = makeDynamic(s * p);
    dyn<Sc>(e, [&](auto &x) { return x * p; }, s, "scale through a Dynamic, wrt the scalar");
    const auto n = makeProxy(p.squaredNorm());
    dyn<Tr>(n, [&](auto &x) { return x.squaredNorm(); }, p, "scalar proxy wrt a vector");
    dyn<Tr>(s * n, [&](auto &x) { return s * x.squaredNorm(); }, p, "multiple of a scalar proxy wrt a vector");
    dyn<Sc>(n * r, [&](auto &x) { return p.squaredNorm() * r; }, s, "wrt a leaf that does not occur");
}
#endif
