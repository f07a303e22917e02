// Every way the library offers to differentiate one expression: forward by address, forward by
// type, reverse, and the two modes that know leaves only by address at run time.  Each must give
// the value of eval() and the derivative of that value.
//   PART 1-3  public interface, leaves of pairwise different types
//   PART 4-6  the evaluators named directly (internal interface)
#include "leaves.hpp"
namespace wi = wave::internal;

enum Kind { KR, KT, KV, KS, KW };  // rotation, transform, 3-vector, scalar, 6-vector
template <Kind k, class L> auto form(const L &x) {
    if constexpr (k == KR) return R(x);
    else if constexpr (k == KT) return T(x);
    else if constexpr (k == KV) return V3(x.value());
    else if constexpr (k == KW) return V6(x.value());
    else {
        Eigen::Matrix<double, 1, 1> v;
        v(0, 0) = double(x);
        return v;
    }
}
template <Kind k> constexpr int TS = k == KS ? 1 : k == KT || k == KW ? 6 : 3;
template <Kind k, class V, class J> void jacK(const V &v, const J &j, int d, const char *l) {
    static_assert(int(J::RowsAtCompileTime) == TS<k>, "rows");
    if constexpr (k == KR) jacR<J>(v, j, d, l);
    else if constexpr (k == KT) jacT<J>(v, j, d, l);
    else jacV<J>(v, j, d, l);
}
template <Kind k, class V, class Tup> void chk(const V &ref, const Tup &t, const char *l, int d1) {
    eqm(form<k>(std::get<0>(t)), ref, l);
    jacK<k>(ref, std::get<1>(t), d1, l);
    static_assert(std::tuple_size<Tup>{} == 2, "");
}
template <Kind k, class V, class Tup> void chk(const V &ref, const Tup &t, const char *l, int d1, int d2) {
    eqm(form<k>(std::get<0>(t)), ref, l);
    jacK<k>(ref, std::get<1>(t), d1, l);
    jacK<k>(ref, std::get<2>(t), d2, l);
    static_assert(std::tuple_size<Tup>{} == 3, "");
}
template <Kind k, class V, class Tup> void chk(const V &ref, const Tup &t, const char *l, int d1, int d2, int d3) {
    eqm(form<k>(std::get<0>(t)), ref, l);
    jacK<k>(ref, std::get<1>(t), d1, l);
    jacK<k>(ref, std::get<2>(t), d2, l);
    jacK<k>(ref, std::get<3>(t), d3, l);
    static_assert(std::tuple_size<Tup>{} == 4, "");
}
template <Kind k, class V, class Map, class A> void chkmap(const V &ref, const Map &m, const A &a, int d) {
    Eigen::Matrix<double, TS<k>, wi::traits<A>::TangentSize> j = m.at(&a);
    jacK<k>(ref, j, d, "dynamic reverse");
}

// ---- public interface; the leaves are in the order of their occurrence
template <Kind k, class E, class A> void pub(const E &e, const A &a, int d1) {
    auto ref = form<k>(w::eval(e));
    chk<k>(ref, e.evalWithJacobians(a), "evalWithJacobians(a)", d1);
    chk<k>(ref, e.evalWithJacobians(), "evalWithJacobians() [reverse]", d1);
    jacK<k>(ref, e.jacobian(a), d1, "jacobian(a)");
}
template <Kind k, class E, class A, class B> void pub(const E &e, const A &a, const B &b, int d1, int d2) {
    auto ref = form<k>(w::eval(e));
    chk<k>(ref, e.evalWithJacobians(a, b), "evalWithJacobians(a,b)", d1, d2);
    chk<k>(ref, e.evalWithJacobians(b, a), "evalWithJacobians(b,a)", d2, d1);
    chk<k>(ref, e.evalWithJacobians(b), "evalWithJacobians(b)", d2);
    chk<k>(ref, e.evalWithJacobians(), "evalWithJacobians() [reverse]", d1, d2);
    jacK<k>(ref, e.jacobian(a), d1, "jacobian(a)");
    jacK<k>(ref, e.jacobian(b), d2, "jacobian(b)");
}
template <Kind k, class E, class A, class B, class C>
void pub(const E &e, const A &a, const B &b, const C &c, int d1, int d2, int d3) {
    auto ref = form<k>(w::eval(e));
    chk<k>(ref, e.evalWithJacobians(a, b, c), "evalWithJacobians(a,b,c)", d1, d2, d3);
    chk<k>(ref, e.evalWithJacobians(c, a), "evalWithJacobians(c,a)", d3, d1);
    chk<k>(ref, e.evalWithJacobians(), "evalWithJacobians() [reverse]", d1, d2, d3);
    jacK<k>(ref, e.jacobian(a), d1, "jacobian(a)");
    jacK<k>(ref, e.jacobian(b), d2, "jacobian(b)");
    jacK<k>(ref, e.jacobian(c), d3, "jacobian(c)");
}
// ---- evaluators
template <Kind k, class E, class A> void inl(const E &e, const A &a, int d1) {
    auto ref = form<k>(w::eval(e));
    chk<k>(ref, wi::evaluateWithJacobians(e, a), "forward by address", d1);
    jacK<k>(ref, wi::evaluateJacobian(e, a), d1, "evaluateJacobian(a)");
    chk<k>(ref, wi::evaluateWithDynamicJacobians(e, a), "forward dynamic", d1);
    jacK<k>(ref, wi::evaluateDynamicJacobian(e, a), d1, "evaluateDynamicJacobian(a)");
    auto rev = wi::evaluateWithDynamicReverseJacobians(e);
    eqm(form<k>(rev.first), ref, "dynamic reverse");
    chkmap<k>(ref, rev.second, a, d1);
}
template <Kind k, class E, class A, class B> void inl(const E &e, const A &a, const B &b, int d1, int d2) {
    auto ref = form<k>(w::eval(e));
    chk<k>(ref, wi::evaluateWithJacobians(e, a, b), "forward by address", d1, d2);
    chk<k>(ref, wi::evaluateWithDynamicJacobians(e, b, a), "forward dynamic", d2, d1);
    jacK<k>(ref, wi::evaluateDynamicJacobian(e, a), d1, "evaluateDynamicJacobian(a)");
    auto rev = wi::evaluateWithDynamicReverseJacobians(e);
    eqm(form<k>(rev.first), ref, "dynamic reverse");
    chkmap<k>(ref, rev.second, a, d1);
    chkmap<k>(ref, rev.second, b, d2);
}
template <Kind k, class E, class A, class B, class C>
void inl(const E &e, const A &a, const B &b, const C &c, int d1, int d2, int d3) {
    auto ref = form<k>(w::eval(e));
    chk<k>(ref, wi::evaluateWithJacobians(e, a, b, c), "forward by address", d1, d2, d3);
    chk<k>(ref, wi::evaluateWithDynamicJacobians(e, c, b, a), "forward dynamic", d3, d2, d1);
    auto rev = wi::evaluateWithDynamicReverseJacobians(e);
    eqm(form<k>(rev.first), ref, "dynamic reverse");
    chkmap<k>(ref, rev.second, a, d1);
    chkmap<k>(ref, rev.second, b, d2);
    chkmap<k>(ref, rev.second, c, d3);
}
// ---- evaluation and differentiation write to nothing but their results, and allocate nothing
template <class F, class... T> auto pureCall(const char *l, F f, const T &... t) {
    wg_pure_begin(l);
    (wg_protect(&t, sizeof(T)), ...);
    wg_noalloc_begin(l);
    auto r = f();
    wg_noalloc_end();
    wg_pure_end();
    return r;
}
template <Kind k, class E, class... L> void pureAll(const E &e, const L &... l) {
    using Tgt = std::tuple_element_t<0, std::tuple<L...>>;
    const Tgt &t = std::get<0>(std::tie(l...));
    auto v = pureCall("eval", [&] { return w::eval(e); }, e, l...);
    auto u = pureCall("eval again", [&] { return e.eval(); }, e, l...);
    eqm(form<k>(u), form<k>(v), "second evaluation");
    auto d = pureCall("evalWithJacobians(leaves...)", [&] { return e.evalWithJacobians(l...); }, e, l...);
    eqm(form<k>(std::get<0>(d)), form<k>(v), "value");
    auto q = pureCall("evalWithJacobians()", [&] { return e.evalWithJacobians(); }, e, l...);
    eqm(form<k>(std::get<0>(q)), form<k>(v), "value");
    auto j = pureCall("jacobian", [&] { return e.jacobian(t); }, e, l...);
    eqm(mat(j), mat(std::get<1>(d)), "the same Jacobian each time");
    const E c{e};
    auto x = pureCall("eval of a copy", [&] { return w::eval(c); }, e, c, l...);
    eqm(form<k>(x), form<k>(v), "value of a copy");
}
template <Kind k, class E, class A> void pure(const E &e, const A &a, int) { pureAll<k>(e, a); }
template <Kind k, class E, class A, class B> void pure(const E &e, const A &a, const B &b, int, int) { pureAll<k>(e, a, b); }
template <Kind k, class E, class A, class B, class C>
void pure(const E &e, const A &a, const B &b, const C &c, int, int, int) { pureAll<k>(e, a, b, c); }
#ifdef PURE
#define M pure
#elif PART >= 4
#define M inl
#else
#define M pub
#endif

#define EN(n, k, ...) extern "C" void G_##n() { OPS; M<k>(__VA_ARGS__); wg_done(#n); }

#if PART == 1 || PART == 4
// rotations in mixed representations
#define OPS                                             \
    RotIn A(0), B(3), C(6); VecIn P(9), S(12);          \
    auto a = mk<w::RotationMFd<FA, FB>>(A);             \
    auto b = mk<w::RotationQFd<FB, FC>>(B);             \
    auto c = mk<w::RotationAFd<FC, FD>>(C);             \
    auto m = mk<w::RotationMFd<FC, FD>>(C);             \
    w::TranslationFd<FD, FD, FE> p{P.v};                \
    w::TranslationFd<FB, FA, FB> q{P.v};                \
    w::TranslationFd<FA, FB, FC> r{S.v};                \
    (void) a; (void) b; (void) c; (void) m; (void) p; (void) q; (void) r;
EN(inv, KR, inverse(a), a, 0)
EN(invq, KR, inverse(b), b, 3)
EN(inva, KR, inverse(c), c, 6)
EN(mq, KR, a *b, a, b, 0, 3)
EN(qa, KR, b *c, b, c, 3, 6)
EN(mqa, KR, a *b *c, a, b, c, 0, 3, 6)
EN(mqm, KR, a *(b * m), a, b, m, 0, 3, 6)
EN(invmqa, KR, inverse(a *b *c), a, b, c, 0, 3, 6)
EN(inviq, KR, inverse(inverse(b) * inverse(a)), b, a, 3, 0)
EN(rot, KV, c *p, c, p, 6, 9)
EN(rot2, KV, b *c *p, b, c, p, 3, 6, 9)
EN(rot2b, KV, b *(m * p), b, m, p, 3, 6, 9)
EN(irot, KV, inverse(a) * r + q, a, r, q, 0, 12, 9)
EN(lg, KV, log(a), a, 0)
EN(lgq, KV, log(b), b, 3)
EN(lg2, KV, log(a *b), a, b, 0, 3)
EN(getr, KR, inverse(a.rotation() * b), a, b, 0, 3)
#endif
#if PART == 2 || PART == 5
// rigid transforms, logarithms, member access
#define OPS                                             \
    SeIn A(0), B(6); RotIn C(12); VecIn P(15);          \
    auto a = mk<w::RigidTransformMFd<FA, FB>>(A);       \
    auto b = mk<w::RigidTransformQFd<FB, FC>>(B);       \
    auto c = mk<w::RotationMFd<FC, FD>>(C);             \
    auto b2 = mk<w::RigidTransformQFd<FA, FB>>(B);      \
    w::TranslationFd<FB, FB, FC> q{P.v};                \
    w::TranslationFd<FC, FC, FE> p{P.v};                \
    (void) a; (void) b; (void) c; (void) p; (void) q; (void) b2;
EN(inv, KT, inverse(a), a, 0)
EN(invq, KT, inverse(b), b, 6)
EN(mul, KT, a *b, a, b, 0, 6)
EN(imul, KT, inverse(b) * inverse(a), b, a, 6, 0)
EN(imul2, KT, inverse(a *b), a, b, 0, 6)
EN(act, KV, b *p, b, p, 6, 15)
EN(actt, KV, a *q, a, q, 0, 15)
EN(act2, KV, a *(b * p), a, b, p, 0, 6, 15)
EN(act3, KV, (a * b) * p, a, b, p, 0, 6, 15)
EN(rmem, KR, b.rotation() * c, b, c, 6, 12)
EN(tmem, KV, a.translation(), a, 0)
EN(tmem2, KV, (a * b).translation(), a, b, 0, 6)
EN(rmem2, KR, inverse((a * b).rotation()), a, b, 0, 6)
EN(minus, KW, a - b2, a, b2, 0, 6)
EN(minus2, KW, b2 - a, b2, a, 6, 0)
#endif
#if PART == 3 || PART == 6
// vectors, scalars, exponentials
#define OPS                                             \
    PhiIn A(0); VecIn B(3), C(6); double s;             \
    wg_real(&s, 1, 9);                                  \
    w::RelativeRotationFd<FA, FA, FB> phi{A.v};         \
    w::TranslationFd<FA, FB, FC> b{B.v};                \
    w::TranslationFd<FA, FC, FD> c{C.v};                \
    w::TranslationFd<FA, FB, FD> d{C.v};                \
    w::Scalar<double> f{s};                             \
    (void) phi; (void) b; (void) c; (void) d; (void) f;
EN(sum, KV, b + c, b, c, 3, 6)
EN(neg, KV, -b, b, 3)
EN(sub, KV, d - b, d, b, 6, 3)
EN(scale, KV, f *b, f, b, 9, 3)
EN(scaler, KV, b *f, b, f, 3, 9)
EN(scale2, KV, f *(b + c), f, b, c, 9, 3, 6)
EN(quot, KV, (b + c) / f, b, c, f, 3, 6, 9)
EN(ex, KR, exp(phi), phi, 0)
EN(exb, KV, exp(phi) * b, phi, b, 0, 3)
EN(exd, KV, exp(phi) * (b + c), phi, b, c, 0, 3, 6)
EN(exf, KV, f * (exp(phi) * b), f, phi, b, 9, 0, 3)
EN(nrm, KS, b.norm(), b, 3)
EN(dotp, KS, dot(b, c), b, c, 3, 6)
EN(nrm2, KS, (b + c).norm(), b, c, 3, 6)
EN(nrmf, KS, f * (exp(phi) * b).norm(), f, phi, b, 9, 0, 3)
#endif

#if PART == 7 || PART == 8 || PART == 9
// leaves that occur several times, and targets that do not occur, in every mode
template <Kind k, class V, class J> void zeroK(const J &j, const char *l) { eqm(j, Eigen::Matrix<double, int(J::RowsAtCompileTime), int(J::ColsAtCompileTime)>::Zero().eval(), l); static_assert(int(J::RowsAtCompileTime) == TS<k>, "rows"); }
template <Kind k, class E, class A, class B> void sh(const E &e, const A &a, const B &b, const A &other, int d1, int d2) {
    auto ref = form<k>(w::eval(e));
    using V = decltype(ref);
    auto [v, ja, jo, jb] = e.evalWithJacobians(a, other, b);
    eqm(form<k>(v), ref, "forward, value");
    jacK<k>(ref, ja, d1, "forward, d/da");
    jacK<k>(ref, jb, d2, "forward, d/db");
    zeroK<k, V>(jo, "forward, d/d(object of equal value)");
    jacK<k>(ref, e.jacobian(a), d1, "jacobian(a)");
    zeroK<k, V>(e.jacobian(other), "jacobian(object of equal value)");
    auto [x, ka, ko, kb] = wi::evaluateWithDynamicJacobians(e, a, other, b);
    eqm(form<k>(x), ref, "forward dynamic, value");
    jacK<k>(ref, ka, d1, "forward dynamic, d/da");
    jacK<k>(ref, kb, d2, "forward dynamic, d/db");
    zeroK<k, V>(ko, "forward dynamic, d/d(object of equal value)");
    zeroK<k, V>(wi::evaluateDynamicJacobian(e, other), "evaluateDynamicJacobian(object of equal value)");
    auto rev = wi::evaluateWithDynamicReverseJacobians(e);
    eqm(form<k>(rev.first), ref, "dynamic reverse, value");
    chkmap<k>(ref, rev.second, a, d1);
    chkmap<k>(ref, rev.second, b, d2);
    wg_i(rev.second.count(&a), 1, "dynamic reverse lists a");
    wg_i(rev.second.count(&b), 1, "dynamic reverse lists b");
    wg_i(rev.second.count(&other), 0, "dynamic reverse does not list an object that does not occur");
}
#define SH(n, k, ...) extern "C" void G_sh_##n() { OPS; sh<k>(__VA_ARGS__); wg_done(#n); }
#endif
#if PART == 7
#define OPS                                             \
    RotIn A(0), B(3); VecIn P(6), S(9);                 \
    auto a = mk<w::RotationMd>(A), a0 = mk<w::RotationMd>(A), c = mk<w::RotationMd>(B); \
    auto b = mk<w::RotationQd>(B), b0 = mk<w::RotationQd>(B); \
    w::Translationd p{P.v}, p0{P.v}, q{S.v};            \
    (void) a; (void) b; (void) c; (void) p; (void) q; (void) a0; (void) b0; (void) p0;
SH(aba, KR, a *b *a, a, b, a0, 0, 3)
SH(aia, KR, a *inverse(b) * inverse(a), a, b, a0, 0, 3)
SH(bab, KR, inverse(b * a) * b, b, a, b0, 3, 0)
SH(caa, KR, c *a *a, a, c, a0, 0, 3)
SH(rr, KV, a *(a * p) + p, a, p, a0, 0, 6)
SH(pp, KV, a *p + p - a * q, p, a, p0, 6, 0)
SH(lgs, KV, log(a *b *a), a, b, a0, 0, 3)
#elif PART == 8
#define OPS                                             \
    SeIn A(0), B(6); VecIn P(12);                       \
    auto a = mk<w::RigidTransformMd>(A), a0 = mk<w::RigidTransformMd>(A); \
    auto b = mk<w::RigidTransformQd>(B), b0 = mk<w::RigidTransformQd>(B); \
    w::Translationd p{P.v}, p0{P.v};                    \
    (void) a; (void) b; (void) p; (void) a0; (void) b0; (void) p0;
SH(taba, KT, a *b *a, a, b, a0, 0, 6)
SH(tbab, KT, inverse(b) * a * b, b, a, b0, 6, 0)
SH(tpp, KV, a *p + p + a.translation(), a, p, a0, 0, 12)
SH(tpr, KV, b.rotation() * p + b.translation(), b, p, b0, 6, 12)
#elif PART == 9
#define OPS                                             \
    PhiIn A(0); VecIn B(3), C(6); double s;             \
    wg_real(&s, 1, 9);                                  \
    w::RelativeRotationd phi{A.v}, phi0{A.v};           \
    w::Translationd b{B.v}, c{C.v}, b0{B.v};            \
    w::Scalar<double> f{s}, f0{s};                      \
    (void) phi; (void) b; (void) c; (void) f; (void) phi0; (void) b0; (void) f0;
SH(bb, KV, b + c - b + b, b, c, b0, 3, 6)
SH(ff, KV, f *(f * b) + b, f, b, f0, 9, 3)
SH(fq, KV, (f * b) / f + f * b, f, b, f0, 9, 3)
SH(dbb, KS, dot(b, b + c), b, c, b0, 3, 6)
SH(nbb, KS, (f * b + b).norm(), b, f, b0, 3, 9)
SH(phx, KV, exp(phi) * b + exp(phi) * c, phi, b, phi0, 0, 3)
SH(phl, KR, exp(phi) * exp(-phi) * exp(f * phi), phi, f, phi0, 0, 9)
// plain numbers named as operands and as targets
extern "C" void G_numbers() {
    OPS
    double x;
    wg_real(&x, 1, 10);
    {
        auto e = x * b;
        V3 ref = x * B.v;
        eqm(eval(e).value(), ref, "x * b");
        auto [v, jb, jx, jf] = e.evalWithJacobians(b, x, f);
        eqm(v.value(), ref, "value");
        jacV(ref, jb, 3, "d(x*b)/db");
        jacV(ref, jx, 10, "d(x*b)/dx");
        eqm(jf, V3::Zero().eval(), "d(x*b)/df");
    }
    {
        auto e = b / x + x * c;
        V3 ref = B.v / x + x * C.v;
        double y = x;
        auto [v, jb, jc, jx, jy] = wi::evaluateWithJacobians(e, b, c, x, y);
        eqm(v.value(), ref, "value");
        jacV(ref, jb, 3, "d(b/x+x*c)/db");
        jacV(ref, jc, 6, "d(b/x+x*c)/dc");
        jacV(ref, jx, 10, "d(b/x+x*c)/dx");
        eqm(jy, V3::Zero().eval(), "d(b/x+x*c)/d(number of equal value)");
        auto [u, kb, kx, ky] = wi::evaluateWithDynamicJacobians(e, b, x, y);
        eqm(u.value(), ref, "dynamic value");
        jacV(ref, kb, 3, "dynamic d(b/x+x*c)/db");
        jacV(ref, kx, 10, "dynamic d(b/x+x*c)/dx");
        eqm(ky, V3::Zero().eval(), "dynamic d(b/x+x*c)/d(number of equal value)");
        auto rev = wi::evaluateWithDynamicReverseJacobians(e);
        jacV(ref, V3{rev.second.at(&x)}, 10, "dynamic reverse d(b/x+x*c)/dx");
        jacV(ref, M3{rev.second.at(&b)}, 3, "dynamic reverse d(b/x+x*c)/db");
    }
}
#endif
