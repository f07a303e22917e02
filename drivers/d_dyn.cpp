// Dynamic expressions: proxies evaluate, differentiate and rebind like the expressions they stand for.
#include "leaves.hpp"
#include <wave/geometry/dynamic.hpp>
namespace wi = wave::internal;
using TrA = w::TranslationFd<FA, FA, FB>;   // vector AB expressed in A
using TrC = w::TranslationFd<FC, FA, FB>;
using RCA = w::RotationQFd<FC, FA>;
using RAC = w::RotationMFd<FA, FC>;
using RAA = w::RotationQFd<FA, FA>;
template <class M, class T, class V> void rev(const M &map, const T &t, const V &ref, int id, const char *l) {
    wg_i(map.count(&t), 1, l);
    jacV<M3>(ref, M3{map.at(&t)}, id, l);
}
#if PART == 1
extern "C" void G_dynamic() {
    RotIn Q(0);
    VecIn P(3);
    auto r = mk<RCA>(Q);
    TrA p{P.v};
    V3 v = Q.R * P.v;
    const auto d = makeDynamic(r * p);
    eqm(eval(d).value(), v, "eval of a Dynamic");
    auto [x, jr, jp] = d.evalWithJacobians(r, p);
    eqm(x.value(), v, "value");
    jacV(v, jr, 0, "Dynamic, d/dr");
    jacV(v, jp, 3, "Dynamic, d/dp");
    const auto u = ref(d);
    static_assert(std::is_same<wi::plain_output_t<decltype(u)>, TrC>{}, "");
    eqm(eval(u).value(), v, "eval of a reference");
    auto [y, kr, kp, kd, ku] = u.evalWithJacobians(r, p, d, u);
    eqm(y.value(), v, "value");
    jacV(v, kr, 0, "reference, d/dr");
    jacV(v, kp, 3, "reference, d/dp");
    eqm(kd, M3::Identity(), "d/d(Dynamic)");
    eqm(ku, M3::Identity(), "d/d(reference)");
    jacV(v, u.jacobian(p), 3, "reference, jacobian(p)");
    TrA other{P.v};
    eqm(u.jacobian(other), M3::Zero().eval(), "reference, equal-valued other leaf");
    auto [z, lp, lr] = wi::evaluateWithDynamicJacobians(u, p, r);
    jacV(v, lr, 0, "dynamic forward, d/dr");
    jacV(v, lp, 3, "dynamic forward, d/dp");
    auto both = wi::evaluateWithDynamicReverseJacobians(u);
    eqm(both.first.value(), v, "dynamic reverse, value");
    rev(both.second, r, v, 0, "dynamic reverse, d/dr");
    rev(both.second, p, v, 3, "dynamic reverse, d/dp");
}
#elif PART == 2
extern "C" void G_proxy() {
    RotIn Q(0);
    VecIn P(3);
    auto r = mk<RCA>(Q);
    TrA p{P.v};
    V3 v = Q.R * P.v;
    const w::Proxy<TrC> x{r * p};
    eqm(eval(x).value(), v, "eval of a proxy");
    eqm(TrC{x}.value(), v, "leaf from a proxy");
    auto [y, jr, jp, jx] = x.evalWithJacobians(r, p, x);
    eqm(y.value(), v, "value");
    jacV(v, jr, 0, "proxy, d/dr");
    jacV(v, jp, 3, "proxy, d/dp");
    eqm(jx, M3::Identity(), "d/d(proxy)");
    auto both = wi::evaluateWithDynamicReverseJacobians(x);
    rev(both.second, r, v, 0, "dynamic reverse, d/dr");
    rev(both.second, p, v, 3, "dynamic reverse, d/dp");
}
extern "C" void G_proxy_copies_temporaries() {
    VecIn P(0);
    TrA p{P.v};
    auto x = makeProxy(TrA{p});
    p = TrA{P.v * 2.};
    eqm(eval(x).value(), P.v, "a proxy owns a temporary leaf");
    eqm(x.jacobian(p), M3::Zero().eval(), "and is not a function of the leaf it was copied from");
}
extern "C" void G_chain() {
    // the derivative passes through intermediate proxies
    RotIn Q(0), S(3);
    VecIn P(6), B(9);
    auto r = mk<RAA>(Q), s = mk<RAA>(S);
    TrA p{P.v};
    TrA b{B.v};
    const auto x = makeProxy(r * p);
    const auto y = makeProxy(s * x);
    V3 xv = Q.R * P.v, v = S.R * xv;
    eqm(eval(y).value(), v, "chain of proxies");
    auto [z, jp, jr, js, jx, jy, jb] = y.evalWithJacobians(p, r, s, x, y, b);
    eqm(z.value(), v, "value");
    jacV(v, jp, 6, "chain, d/dp");
    jacV(v, jr, 0, "chain, d/dr");
    jacV(v, js, 3, "chain, d/ds");
    eqm(jx, S.R, "chain, d/d(inner proxy)");
    eqm(jy, M3::Identity(), "chain, d/d(outer proxy)");
    eqm(jb, M3::Zero().eval(), "chain, d/d(unrelated)");
}
#elif PART == 3
extern "C" void G_rebind() {
    RotIn Q(0), S(3);
    VecIn P(6);
    auto r = mk<RCA>(Q), s = mk<RCA>(S);
    TrA p{P.v};
    V3 v = Q.R * P.v, u = S.R * P.v;
    auto x = makeProxy(r * p);
    auto y = x;
    eqm(eval(y).value(), v, "copy of a proxy");
    auto e = makeProxy(inverse(r) * x);   // holds the old target
    x = s * p;
    eqm(eval(x).value(), u, "rebound proxy");
    eqm(eval(y).value(), v, "copy keeps its target");
    eqm(eval(e).value(), P.v, "expression keeps the target it was built with");
    jacV(u, x.jacobian(s), 3, "rebound proxy, d/ds");
    eqm(x.jacobian(r), M3::Zero().eval(), "rebound proxy, d/dr");
    jacV(v, y.jacobian(r), 0, "copy, d/dr");
    x = y;
    eqm(eval(x).value(), v, "assignment from a proxy");
    jacV(v, x.jacobian(r), 0, "assignment from a proxy, d/dr");
}
extern "C" void G_rebind_ref() {
    VecIn P(0), S(3);
    TrA p{P.v}, s{S.v};
    const auto d = makeDynamic(p), f = makeDynamic(s);
    auto x = ref(d);
    auto y = x;
    auto sum = makeDynamic(-x);
    x = ref(f);
    eqm(eval(x).value(), S.v, "rebound reference");
    eqm(eval(y).value(), P.v, "copy keeps its target");
    eqm(eval(sum).value(), -P.v, "expression keeps the target it was built with");
    eqm(x.jacobian(s), M3::Identity(), "rebound reference, d/ds");
    eqm(x.jacobian(p), M3::Zero().eval(), "rebound reference, d/dp");
}
extern "C" void G_live() {
    // a dynamic expression over lvalues follows their current values
    RotIn Q(0), S(3);
    VecIn P(6), B(9);
    auto r = mk<RCA>(Q);
    TrA p{P.v};
    auto x = makeProxy(r * p);
    eqm(eval(x).value(), V3(Q.R * P.v), "before the change");
    r = mk<RCA>(S);
    p = TrA{B.v};
    V3 v = S.R * B.v;
    eqm(eval(x).value(), v, "after the change");
    jacV(v, x.jacobian(r), 3, "after the change, d/dr");
    jacV(v, x.jacobian(p), 9, "after the change, d/dp");
}
#elif PART == 4
extern "C" void G_mixed() {
    // proxies inside static expressions
    RotIn Q(0), S(3);
    VecIn P(6), B(9);
    auto r = mk<RCA>(Q);
    auto s = mk<RAC>(S);
    TrA p{P.v}, b{B.v};
    const auto x = makeProxy(r * p);      // C_v_AB
    const auto e = s * x;                 // A_v_AB
    V3 v = S.R * (Q.R * P.v);
    eqm(eval(e).value(), v, "proxy in a static expression");
    auto [z, jr, js, jp, jx] = e.evalWithJacobians(r, s, p, x);
    eqm(z.value(), v, "value");
    jacV(v, jr, 0, "d/dr");
    jacV(v, js, 3, "d/ds");
    jacV(v, jp, 6, "d/dp");
    eqm(jx, S.R, "d/d(proxy)");
    auto [z2, kx, kp, ks] = wi::evaluateWithDynamicJacobians(e, x, p, s);
    eqm(kx, S.R, "forward dynamic, d/d(proxy)");
    jacV(v, kp, 6, "forward dynamic, d/dp");
    jacV(v, ks, 3, "forward dynamic, d/ds");
    eqm(wi::evaluateDynamicJacobian(e, x), S.R, "evaluateDynamicJacobian(proxy)");
    eqm(wi::evaluateJacobian(e, x), S.R, "evaluateJacobian(proxy)");
    (void) z2;
    auto both = wi::evaluateWithDynamicReverseJacobians(e);
    rev(both.second, r, v, 0, "dynamic reverse, d/dr");
    rev(both.second, s, v, 3, "dynamic reverse, d/ds");
    rev(both.second, p, v, 6, "dynamic reverse, d/dp");
}
extern "C" void G_shared() {
    // one proxy used twice, sharing a leaf with the rest of the expression
    RotIn Q(0);
    VecIn P(3);
    auto r = mk<RAA>(Q);
    TrA p{P.v};
    const auto x = makeProxy(r * p);
    const auto e = r * (x - p) - x;
    V3 v = Q.R * (Q.R * P.v - P.v) - Q.R * P.v;
    (void) e;
    eqm(eval(e).value(), v, "value");
    auto [z, jr, jp, jx] = e.evalWithJacobians(r, p, x);
    jacV(v, jr, 0, "shared, d/dr");
    jacV(v, jp, 3, "shared, d/dp");
    eqm(jx, Q.R - M3::Identity(), "shared, d/d(proxy)");
    auto both = wi::evaluateWithDynamicReverseJacobians(e);
    rev(both.second, r, v, 0, "dynamic reverse, d/dr");
    rev(both.second, p, v, 3, "dynamic reverse, d/dp");
}
#elif PART == 5
extern "C" void G_rot() {
    RotIn Q(0), S(3);
    VecIn P(6);
    auto r = mk<RCA>(Q);
    auto s = mk<RAC>(S);
    const auto x = makeProxy(r * s);
    static_assert(std::is_same<w::LeftFrameOf<decltype(eval(x))>, FC>{}, "");
    M3 m = Q.R * S.R;
    eqm(R(eval(x)), m, "proxy of a rotation");
    auto [z, jr, js, jx] = x.evalWithJacobians(r, s, x);
    jacR(m, jr, 0, "d/dr");
    jacR(m, js, 3, "d/ds");
    eqm(jx, M3::Identity(), "d/d(proxy)");
    const auto i = makeProxy(inverse(x));
    eqm(R(eval(i)), m.transpose(), "proxy of an inverse of a proxy");
    jacR(M3(m.transpose()), i.jacobian(s), 3, "inverse, d/ds");
    auto [iv, ix] = i.evalWithJacobians(x);
    eqm(ix, -m.transpose(), "inverse, d/d(proxy)");
}
extern "C" void G_scalar() {
    VecIn P(0), B(3);
    w::Translationd p{P.v}, b{B.v};
    const auto x = makeProxy(p + b);
    const auto e = x.norm();
    double n = (P.v + B.v).norm();
    eqs(eval(e).value(), n, "norm of a proxy");
    auto [z, jp, jx] = e.evalWithJacobians(p, x);
    jacV<Eigen::Matrix<double, 1, 3>>(Eigen::Matrix<double, 1, 1>(n), jp, 0, "norm, d/dp");
    const auto y = makeProxy(x.norm());
    auto both = wi::evaluateWithDynamicReverseJacobians(y);
    wg_i(both.second.count(&b), 1, "leaf b is listed");
    jacV<Eigen::Matrix<double, 1, 3>>(Eigen::Matrix<double, 1, 1>(n), Eigen::Matrix<double, 1, 3>{both.second.at(&b)}, 3, "reverse, norm, d/db");
}
#elif PART == 6
extern "C" void G_transform() {
    SeIn A(0), B(6);
    auto a = mk<w::RigidTransformMd>(A);
    auto b = mk<w::RigidTransformQd>(B);
    const auto x = makeProxy(a * b);
    M4 m = A.T * B.T;
    eqm(T(eval(x)), m, "proxy of a transform");
    auto [z, ja, jb] = x.evalWithJacobians(a, b);
    jacT(m, ja, 0, "d/da");
    jacT(m, jb, 6, "d/db");
    auto both = wi::evaluateWithDynamicReverseJacobians(x);
    eqm(T(both.first), m, "dynamic reverse, value");
    Eigen::Matrix<double, 6, 6> ka{both.second.at(&a)}, kb{both.second.at(&b)};
    jacT(m, ka, 0, "dynamic reverse, d/da");
    jacT(m, kb, 6, "dynamic reverse, d/db");
}
extern "C" void G_chain_rebind() {
    // result = R2 * result: the proxy now stands for an expression of its former target
    RotIn Q(0), S(3);
    VecIn P(6);
    w::Translationd t{P.v};
    auto r = mk<w::RotationMd>(Q);
    auto s = mk<w::RotationMd>(S);
    w::Proxy<w::Translationd> p{w::Translationd{P.v}};
    w::Proxy<w::RotationMd> R1{w::RotationMd{r}}, R2{w::RotationMd{s}};
    w::Proxy<w::Translationd> result = R1 * p;
    auto before = result;
    result = R2 * result;
    V3 v = S.R * (Q.R * P.v);
    eqm(eval(result).value(), v, "rebound to an expression of itself");
    w::Translationd leaf;
    leaf = result;
    eqm(leaf.value(), v, "assigned to a leaf");
    auto [z, j1, j2, jp, jb] = result.evalWithJacobians(R1, R2, p, before);
    eqm(z.value(), v, "value");
    eqm(jb, S.R, "d/d(former target)");
    eqm(jp, (S.R * Q.R).eval(), "d/d(leaf proxy)");
    eqm(j2, (-hat(v)).eval(), "d/d(R2)");
    eqm(j1, (S.R * -hat(V3(Q.R * P.v))).eval(), "d/d(R1)");
    p = w::Translationd{V3(2 * P.v)};
    eqm(eval(result).value(), v, "rebinding an operand does not change expressions already built");
}
#elif PART == 7
// proxies and dynamic expressions of every dimension, differentiated with respect to leaves of every dimension
template <class V, class X> V formv(const X &x) {
    if constexpr (std::is_same<V, M3>{}) return R(x);
    else if constexpr (std::is_same<V, M4>{}) return T(x);
    else if constexpr (int(V::SizeAtCompileTime) == 1) return V(double(x.value()));
    else return V(x.value());
}
template <class V> constexpr int TN = std::is_same<V, M4>{} ? 6 : std::is_same<V, M3>{} ? 3 : int(V::SizeAtCompileTime);
template <class V, class J> void jacv(const V &v, const J &j_, int d, const char *s) {
    const Eigen::Matrix<double, TN<V>, J::ColsAtCompileTime> j = j_;
    if constexpr (std::is_same<V, M3>{}) jacR(v, j, d, s);
    else if constexpr (std::is_same<V, M4>{}) jacT(v, j, d, s);
    else jacV(v, j, d, s);
}
template <class V, class X, class L> void one(const V &v, const X &x, const L &l, int d, const char *s) {
    eqm(formv<V>(eval(x)), v, s);
    jacv(v, x.jacobian(l), d, s);
    auto t = x.evalWithJacobians(l);
    eqm(formv<V>(std::get<0>(t)), v, s);
    jacv(v, std::get<1>(t), d, s);
    auto u = wi::evaluateWithDynamicJacobians(x, l);
    jacv(v, std::get<1>(u), d, s);
    auto m = wi::evaluateWithDynamicReverseJacobians(x);
    eqm(formv<V>(m.first), v, s);
    Eigen::Matrix<double, TN<V>, wi::traits<L>::TangentSize> j = m.second.at(&l);
    jacv(v, j, d, s);
}
template <class V, class E, class L> void dims(const V &v, const E &e, const L &l, int d, const char *s) {
    const auto dy = makeDynamic(E{e});
    one(v, dy, l, d, s);
    const auto r = ref(dy);
    one(v, r, l, d, s);
    const auto p = makeProxy(E{e});
    one(v, p, l, d, s);
    const w::Scalar<double> o{2};
    if constexpr (TN<V> == 3 && int(V::ColsAtCompileTime) == 1) one<V>(2 * v, o * r, l, d, s);
    eqm(p.jacobian(o), Eigen::Matrix<double, TN<V>, 1>::Zero().eval(), s);
    const w::Translationd z{V3(1, 2, 3)};
    eqm(p.jacobian(z), Eigen::Matrix<double, TN<V>, 3>::Zero().eval(), s);
    const w::RigidTransformMd y{M4(M4::Identity())};
    eqm(r.jacobian(y), Eigen::Matrix<double, TN<V>, 6>::Zero().eval(), s);
}
#define OPS                                                        \
    SeIn A(0); RotIn B(6); VecIn P(9), S(12); double f_; wg_real(&f_, 1, 15); PhiIn U(16); \
    auto a = mk<w::RigidTransformQd>(A); auto m = mk<w::RigidTransformMd>(A); auto b = mk<w::RotationMd>(B);       \
    w::Translationd p{P.v}, q{S.v}; w::Scalar<double> f{f_}; w::RelativeRotationd u{U.v};    \
    (void) a; (void) b; (void) m; (void) p; (void) q; (void) f; (void) u;
#define DIM(n, V, e, l, d, v) extern "C" void G_dim_##n() { OPS auto e_ = e; const V v_(v); dims<V>(v_, e_, l, d, #e " wrt " #l); wg_done(#n); }
using V1 = Eigen::Matrix<double, 1, 1>;
DIM(v_se, V3, a *p, a, 0, A.R * P.v + A.t)
DIM(v_sem, V3, m *p, m, 0, A.R * P.v + A.t)
DIM(v_sc, V3, f *p, f, 15, f_ * P.v)
DIM(v_rot, V3, b *p, b, 6, B.R * P.v)
DIM(t_se, V3, m.translation(), m, 0, A.t)
DIM(r_se, M3, a.rotation(), a, 0, A.R)
DIM(r_se2, M3, b * m.rotation(), m, 0, B.R * A.R)
DIM(s_v, V1, p.norm(), p, 9, P.v.norm())
DIM(s_se, V1, (a * p).squaredNorm(), a, 0, (A.R * P.v + A.t).squaredNorm())
DIM(s_d, V1, dot(b * p, q), b, 6, (B.R * P.v).dot(S.v))
DIM(s_s, V1, f * dot(p, q), f, 15, f_ * P.v.dot(S.v))
DIM(se_inv, M4, inverse(a), a, 0, seinv(A.T))
DIM(se_inv2, M4, inverse(m), m, 0, seinv(A.T))
DIM(ex, V3, exp(u) * p, p, 9, (w::RotationMd{exp(u)}.value() * P.v))
DIM(ex2, M3, exp(u) * b, u, 16, (w::RotationMd{exp(u)}.value() * B.R))
DIM(lg, V3, log(m.rotation()), m, 0, w::eval(log(w::RotationMd{A.R})).value())
#endif
