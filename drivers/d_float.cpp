// Single precision: every kind of leaf and operator instantiated with float computes the same real-number
// functions and derivatives.
#include "compound.hpp"
namespace wi = wave::internal;
using F3 = Eigen::Matrix<float, 3, 1>;
using F33 = Eigen::Matrix<float, 3, 3>;
using F44 = Eigen::Matrix<float, 4, 4>;
using F6 = Eigen::Matrix<float, 6, 1>;
using RM = w::MatrixRotation<F33>;
using RQ = w::QuaternionRotation<Eigen::Quaternionf>;
using RA = w::AngleAxisRotation<Eigen::AngleAxisf>;
using TM = w::MatrixRigidTransform<F44>;
using TQ = w::CompactRigidTransform<Eigen::Quaternionf, F3>;
using Tr = w::Translation<F3>;
using Pt = w::Point<F3>;
using RR = w::RelativeRotation<F3>;
using Tw = w::Twist<F6>;
using Sc = w::Scalar<float>;
template <class L> L rot(const RotIn &r) {
    if constexpr (std::is_same<L, RM>{}) return L{r.R.cast<float>()};
    else if constexpr (std::is_same<L, RQ>{}) return L{r.q.cast<float>()};
    else return L{r.AA().cast<float>()};
}
template <class L> L tf(const SeIn &s) {
    if constexpr (std::is_same<L, TM>{}) return L{s.T.cast<float>()};
    else return L{s.q.cast<float>(), s.t.cast<float>()};
}
static M3 m3(const F33 &m) { return m.cast<double>(); }
static M3 m3(const Eigen::Quaternionf &q) { return q.cast<double>().toRotationMatrix(); }
static M3 m3(const Eigen::AngleAxisf &a) { return a.cast<double>().toRotationMatrix(); }
template <class L> M3 RF(const L &l) { return m3(l.value()); }
static M4 m4(const F44 &m) { return m.cast<double>(); }
template <class A, class B> M4 m4(const std::tuple<A, B> &v) { return se(m3(std::get<0>(v).value()), V3(std::get<1>(v).value().template cast<double>())); }
template <class L> M4 TF(const L &l) { return m4(l.value()); }
template <class L> auto vf(const L &l) { return l.value().template cast<double>().eval(); }
template <class E> void is_float(const E &) { static_assert(std::is_same<wi::scalar_t<E>, float>{}, "scalar type"); }
#if PART == 1
template <class A_, class B_> static void group() {
    RotIn A(0), B(3);
    VecIn P(6);
    A_ a = rot<A_>(A);
    B_ b = rot<B_>(B);
    Tr p{P.v.cast<float>()};
    auto e = a * b;
    is_float(w::eval(e));
    eqm(RF(w::eval(e)), M3(A.R * B.R), "a b");
    jacR(A.R * B.R, e.jacobian(a), 0, "d(a b)/da");
    jacR(A.R * B.R, e.jacobian(b), 3, "d(a b)/db");
    auto f = inverse(a) * p;
    eqm(vf(w::eval(f)), V3(A.R.transpose() * P.v), "a^-1 p");
    jacV(V3(A.R.transpose() * P.v), f.jacobian(a), 0, "d(a^-1 p)/da");
    jacV(V3(A.R.transpose() * P.v), f.jacobian(p), 6, "d(a^-1 p)/dp");
    const A_ c{b};
    eqm(RF(c), B.R, "conversion");
    auto [v, ja, jb, jp] = (a * b * p).evalWithJacobians(a, b, p);
    static_assert(std::is_same<typename std::decay_t<decltype(ja)>::Scalar, float>{}, "scalar type of a Jacobian");
    eqm(vf(v), V3(A.R * (B.R * P.v)), "a b p");
    jacV<decltype(ja)>(V3(A.R * (B.R * P.v)), ja, 0, "d(a b p)/da");
    jacV<decltype(jb)>(V3(A.R * (B.R * P.v)), jb, 3, "d(a b p)/db");
    jacV<decltype(jp)>(V3(A.R * (B.R * P.v)), jp, 6, "d(a b p)/dp");
}
extern "C" void G_mm() { group<RM, RM>(); }
extern "C" void G_qq() { group<RQ, RQ>(); }
extern "C" void G_mq() { group<RM, RQ>(); }
extern "C" void G_qm() { group<RQ, RM>(); }
template <class A_, class B_> static void rigid() {
    SeIn A(0), B(6);
    VecIn P(12);
    A_ a = tf<A_>(A);
    B_ b = tf<B_>(B);
    Tr p{P.v.cast<float>()};
    auto e = a * b;
    is_float(w::eval(e));
    eqm(TF(w::eval(e)), M4(A.T * B.T), "a b");
    jacT(M4(A.T * B.T), e.jacobian(a), 0, "d(a b)/da");
    jacT(M4(A.T * B.T), e.jacobian(b), 6, "d(a b)/db");
    eqm(TF(w::eval(inverse(a))), seinv(A.T), "a^-1");
    jacT(seinv(A.T), inverse(a).jacobian(a), 0, "d(a^-1)/da");
    V3 ref = A.R * P.v + A.t;
    eqm(vf(w::eval(a * p)), ref, "a p");
    jacV(ref, (a * p).jacobian(a), 0, "d(a p)/da");
    jacV(ref, (a * p).jacobian(p), 12, "d(a p)/dp");
    eqm(vf(w::eval(a.translation())), A.t, "translation");
    eqm(RF(w::eval(a.rotation())), A.R, "rotation");
}
extern "C" void G_tmm() { rigid<TM, TM>(); }
extern "C" void G_tqq() { rigid<TQ, TQ>(); }
#elif PART == 2
template <class A_> static void explog() {
    PhiIn f(0);
    RotIn A(3);
    RR u{f.v.cast<float>()};
    RM m{exp(u)};
    A_ a = rot<A_>(A);
    auto x = w::eval(exp(u));
    w::RelativeRotationd ud{f.v};
    w::RotationMd rd{exp(ud)};
    eqm(RF(m), rd.value(), "exp");
    auto g = log(a);
    is_float(w::eval(g));
    auto ad = log(mk<std::conditional_t<std::is_same<A_, RM>{}, w::RotationMd, std::conditional_t<std::is_same<A_, RQ>{}, w::RotationQd, w::RotationAd>>>(A));
    eqm(vf(w::eval(g)), w::eval(ad).value(), "log");
    jacV(w::eval(ad).value(), g.jacobian(a), 3, "d(log a)/da");
    A_ s{a + u};
    eqm(RF(s), M3(rd.value() * A.R), "a + u");
}
extern "C" void G_explog_m() { explog<RM>(); }
extern "C" void G_explog_q() { explog<RQ>(); }
extern "C" void G_expjac() {
    PhiIn f(0);
    RR u{f.v.cast<float>()};
    w::RotationMd rd{exp(w::RelativeRotationd{f.v})};
    jacR(rd.value(), exp(u).jacobian(u), 0, "d(exp u)/du");
}
extern "C" void G_angleaxis() {
    RotIn A(0);
    RA a = rot<RA>(A);
    eqm(RF(RM{a}), A.R, "conversion");
    eqm(RF(RQ{a}), A.R, "conversion");
    eqm(RF(w::eval(inverse(a))), M3(A.R.transpose()), "inverse");
}
extern "C" void G_twist() {
    SeIn A(0);
    TM a = tf<TM>(A);
    w::RigidTransformMd d = mk<w::RigidTransformMd>(A);
    eqm(vf(w::eval(log(a))), w::eval(log(d)).value(), "log");
    VecIn P(6), S(9);
    V6 v;
    v << P.v, S.v;
    Tw t{v.cast<float>()};
    eqm(vf(w::eval(t + t)), V6(2 * v), "t + t");
    eqm(vf(RR{t.rotation()}), P.v, "rotation part");
    eqm(vf(Tr{t.translation()}), S.v, "translation part");
}
#elif PART == 3
extern "C" void G_vec() {
    VecIn P(0), Q(3);
    double s;
    wg_real(&s, 1, 6);
    Tr p{P.v.cast<float>()}, q{Q.v.cast<float>()};
    Pt x{P.v.cast<float>()}, y{Q.v.cast<float>()};
    Sc k{float(s)};
    eqm(vf(w::eval(p + q)), V3(P.v + Q.v), "p + q");
    eqm(vf(w::eval(p - q)), V3(P.v - Q.v), "p - q");
    eqm(vf(w::eval(-p)), V3(-P.v), "-p");
    eqm(vf(w::eval(x - y)), V3(P.v - Q.v), "x - y");
    eqm(vf(w::eval(x + q)), V3(P.v + Q.v), "x + q");
    eqm(vf(w::eval(k * p)), V3(s * P.v), "k p");
    eqm(vf(w::eval(p / k)), V3(P.v / s), "p / k");
    eqm(vf(w::eval(2.f * p)), V3(2 * P.v), "2 p");
    eqs(w::eval(dot(p, q)).value(), P.v.dot(Q.v), "dot");
    eqs(w::eval(p.squaredNorm()).value(), P.v.squaredNorm(), "squared norm");
    eqs(w::eval(p.norm()).value(), P.v.norm(), "norm");
    eqm(vf(w::eval(p.normalized())), V3(P.v / P.v.norm()), "normalized");
    jacV(V3(s * P.v), (k * p).jacobian(p), 0, "d(k p)/dp");
    jacV(V3(s * P.v), (k * p).jacobian(k), 6, "d(k p)/dk");
    jacV(V3(P.v / s), (p / k).jacobian(k), 6, "d(p / k)/dk");
    Eigen::Matrix<double, 1, 1> n;
    n(0) = P.v.norm();
    jacV(n, p.norm().jacobian(p), 0, "d|p|/dp");
    auto [v, jp, jq] = (p - q).evalWithJacobians(p, q);
    eqm(vf(v), V3(P.v - Q.v), "p - q");
    jacV<decltype(jp)>(V3(P.v - Q.v), jp, 0, "d(p-q)/dp");
    jacV<decltype(jq)>(V3(P.v - Q.v), jq, 3, "d(p-q)/dq");
}
extern "C" void G_scalar() {
    double s, r;
    wg_real(&s, 1, 0);
    wg_real(&r, 1, 1);
    Sc a{float(s)}, b{float(r)};
    eqs(w::eval(a * b).value(), s * r, "a b");
    eqs(w::eval(a / b).value(), s / r, "a / b");
    eqs(w::eval(a + b - a * b).value(), s + r - s * r, "a + b - a b");
    Eigen::Matrix<double, 1, 1> n;
    n(0) = s / r;
    jacV(n, (a / b).jacobian(b), 1, "d(a/b)/db");
}
extern "C" void G_framed() {
    RotIn A(0);
    VecIn P(3);
    w::Framed<RM, FA, FB> a{A.R.cast<float>()};
    w::Framed<Tr, FB, FB, FC> p{P.v.cast<float>()};
    auto e = a * p;
    static_assert(std::is_same<w::LeftFrameOf<decltype(w::eval(e))>, FA>{}, "frames");
    eqm(vf(w::eval(e)), V3(A.R * P.v), "a p");
    jacV(V3(A.R * P.v), e.jacobian(a), 0, "d(a p)/da");
}
extern "C" void G_identity() {
    RotIn A(0);
    VecIn P(3);
    RM a = rot<RM>(A);
    eqm(RF(w::eval(a * RM::Identity())), A.R, "a I");
    Tr p{P.v.cast<float>()};
    eqm(vf(w::eval(p + w::Zero<Tr>{})), P.v, "p + 0");
    eqm(RF(RM{w::Identity<RQ>{}}), M3::Identity(), "I");
}
extern "C" void G_noise() {
    V3 s;
    wg_real(s.data(), 3, -1);
    const auto n = w::DiagonalNoise<Tr>::FromStdDev(s.cast<float>().eval());
    eqm(M3(M3(F33(n.covariance()).cast<double>())), M3(V3(s.cwiseProduct(s)).asDiagonal()), "covariance");
}
#endif
