// Approximate comparisons: the verdict is that of the documented formula, on every path, whatever the representation
// of the operands, and whether they are leaves or expressions.
#include "compound.hpp"

static double precision() {
    double p;
    wg_real(&p, 1, -1);
    wg_sign(&p, 1);
    return p;
}
// |a - b|^2 <= p^2 min(|a|^2, |b|^2)
template <class V> static bool close(const V &a, const V &b, double p) {
    double d = 0, x = 0, y = 0;
    for (int i = 0; i < a.size(); ++i) d += (a(i) - b(i)) * (a(i) - b(i)), x += a(i) * a(i), y += b(i) * b(i);
    return d <= p * p * (y < x ? y : x);
}
template <class V> static bool small(const V &a, double p) {
    for (int i = 0; i < a.size(); ++i)
        if (!(std::abs(a(i)) <= p)) return false;
    return true;
}
// the coefficients beyond the first two are taken to be positive (any other orthant is the same by symmetry)
template <class V> static void orthant(const V &a) {
    for (int i = 2; i < a.size(); ++i) {
        double x = a(i);
        wg_sign(&x, 1);
    }
}
static bool close(double a, double b, double p) {
    double x = std::abs(a), y = std::abs(b);
    return std::abs(a - b) <= p * (y < x ? y : x);
}

#if PART == 1
template <class L, int N> static void vec() {
    Eigen::Matrix<double, N, 1> A, B, C;
    wg_real(A.data(), N, -1);
    wg_real(B.data(), N, -1);
    wg_real(C.data(), N, -1);
    double p = precision();
    L a{A}, b{B}, c{C};
    wg_i(a.isApprox(b, p), close(A, B, p), "a.isApprox(b)");
    wg_i(b.isApprox(a, p), close(A, B, p), "b.isApprox(a)");
    wg_i(a.isApprox(a, p), 1, "a.isApprox(a)");
    wg_i(a.isApprox(b), close(A, B, sizeof(double) == 4 ? 1e-5f : 1e-12), "a.isApprox(b), default precision");
}
template <class L, int N> static void vece() {
    Eigen::Matrix<double, N, 1> A, B, C;
    wg_real(A.data(), N, -1);
    wg_real(B.data(), N, -1);
    wg_real(C.data(), N, -1);
    double p = precision(), s;
    wg_real(&s, 1, -1);
    L a{A}, b{B}, c{C};
    wg_i((a + b).isApprox(c, p), close((A + B).eval(), C, p), "(a+b).isApprox(c)");
    wg_i(c.isApprox(a - b, p), close((A - B).eval(), C, p), "c.isApprox(a-b)");
    wg_i((a * s).isApprox(b + c, p), close((A * s).eval(), (B + C).eval(), p), "(a*s).isApprox(b+c)");
    wg_i((a + b).isApprox(b + a, p), 1, "(a+b).isApprox(b+a)");
}
template <class L, int N> static void zero() {
    Eigen::Matrix<double, N, 1> A, B;
    wg_real(A.data(), N, -1);
    wg_real(B.data(), N, -1);
    orthant(A);
    double p = precision();
    L a{A}, b{B};
    wg_i(a.isZero(p), small(A, p), "a.isZero()");
    wg_i((a + b - b).isZero(p), small(A, p), "(a+b-b).isZero()");
    wg_i((b - b).isZero(), 1, "(b-b).isZero()");
    wg_i(L::Zero().eval().isZero(p), 1, "Zero().isZero()");
}
extern "C" void G_Translation() { vec<w::Translationd, 3>(); }
extern "C" void G_RelativeRotation() { vec<w::RelativeRotationd, 3>(); }
extern "C" void G_Twist() { vec<w::Twistd, 6>(); }
extern "C" void G_FTranslation() { vec<w::TranslationFd<FA, FB, FC>, 3>(); }
extern "C" void G_eTranslation() { vece<w::Translationd, 3>(); }
extern "C" void G_eRelativeRotation() { vece<w::RelativeRotationd, 3>(); }
extern "C" void G_eTwist() { vece<w::Twistd, 6>(); }
extern "C" void G_zTranslation() { zero<w::Translationd, 3>(); }
extern "C" void G_zRelativeRotation() { zero<w::RelativeRotationd, 3>(); }
extern "C" void G_zTwist() { zero<w::Twistd, 6>(); }
extern "C" void G_Point() {
    VecIn A, B, C;
    double p = precision();
    w::Pointd a{A.v}, b{B.v};
    w::Translationd t{C.v};
    wg_i(a.isApprox(b, p), close(A.v, B.v, p), "a.isApprox(b)");
    wg_i((a + t).isApprox(b, p), close(V3(A.v + C.v), B.v, p), "(a+t).isApprox(b)");
    wg_i((a - b).isApprox(t, p), close(V3(A.v - B.v), C.v, p), "(a-b).isApprox(t)");
}
#define SCALARS double a, b, p = precision(); wg_real(&a, 1, -1); wg_real(&b, 1, -1); w::Scalar<double> x{a}, y{b};
extern "C" void G_Scalar() {
    SCALARS
    wg_i(x.isApprox(y, p), close(a, b, p), "x.isApprox(y)");
    wg_i(x.isApprox(x, p), 1, "x.isApprox(x)");
}
extern "C" void G_ScalarProduct() { SCALARS wg_i((x * y).isApprox(y, p), close(a * b, b, p), "(x*y).isApprox(y)"); }
extern "C" void G_ScalarZero() { SCALARS wg_i(x.isZero(p), std::abs(a) <= p, "x.isZero()"); }
extern "C" void G_ScalarProductZero() { SCALARS wg_i((x * y).isZero(p), std::abs(a * b) <= p, "(x*y).isZero()"); }
extern "C" void G_ScalarNorm() {
    SCALARS
    V3 A;
    wg_real(A.data(), 3, -1);
    w::Translationd t{A};
    wg_i(t.norm().isApprox(x, p), close(A.norm(), a, p), "t.norm().isApprox(x)");
    wg_i(t.norm().isApprox((t + t).norm(), p), A.norm() <= p * A.norm(), "|t|.isApprox(|t + t|)");
}
#elif PART == 2
template <class A_, class B_> static void rot() {
    RotIn A, B;
    double p = precision();
    auto a = mk<A_>(A);
    auto b = mk<B_>(B);
    const V3 d = w::eval(a - b).value();
    orthant(d);
    wg_i(a.isApprox(b, p), small(d, p), "a.isApprox(b)");
}
template <class A_, class B_> static void prod() {
    RotIn A, B;
    double p = precision();
    auto a = mk<A_>(A);
    auto b = mk<B_>(B);
    const V3 d = w::eval(a * b - b).value();
    orthant(d);
    wg_i((a * b).isApprox(b, p), small(d, p), "(a*b).isApprox(b)");
}
template <class A_, class B_> static void same() {
    RotIn A;
    double p = precision();
    auto a = mk<A_>(A);
    auto b = mk<B_>(A);
    wg_i(a.isApprox(b, p), 1, "a.isApprox(a)");
    wg_i(a.isApprox(inverse(inverse(b)), p), 1, "a.isApprox(inverse(inverse(a)))");
}
using RM = w::RotationMd; using RQ = w::RotationQd; using RA = w::RotationAd;
extern "C" void G_rMM() { rot<RM, RM>(); }
extern "C" void G_rMQ() { rot<RM, RQ>(); }
extern "C" void G_rQA() { rot<RQ, RA>(); }
extern "C" void G_rQQ() { rot<RQ, RQ>(); }
extern "C" void G_rAA() { rot<RA, RA>(); }
extern "C" void G_pMM() { prod<RM, RM>(); }
extern "C" void G_pMQ() { prod<RM, RQ>(); }
extern "C" void G_pQA() { prod<RQ, RA>(); }
extern "C" void G_pQQ() { prod<RQ, RQ>(); }
extern "C" void G_pAA() { prod<RA, RA>(); }
extern "C" void G_sMM() { same<RM, RM>(); }
extern "C" void G_sQQ() { same<RQ, RQ>(); }
extern "C" void G_sQM() { same<RQ, RM>(); }
extern "C" void G_sAQ() { same<RA, RQ>(); }
extern "C" void G_framed() {
    RotIn A, B;
    double p = precision();
    w::RotationMFd<FA, FB> a{A.R};
    w::RotationQFd<FA, FB> b{B.q};
    const V3 d = w::eval(a - b).value();
    orthant(d);
    wg_i(a.isApprox(b, p), small(d, p), "a.isApprox(b)");
}
#else
template <class A_, class B_> static void se3() {
    SeIn A, B;
    double p = precision();
    auto a = mk<A_>(A);
    auto b = mk<B_>(B);
    const V6 d = w::eval(a - b).value();
    orthant(d);
    wg_i(a.isApprox(b, p), small(d, p), "a.isApprox(b)");
}
template <class A_, class B_> static void same() {
    SeIn A;
    double p = precision();
    auto a = mk<A_>(A);
    auto b = mk<B_>(A);
    wg_i(a.isApprox(b, p), 1, "a.isApprox(a)");
}
using TM = w::RigidTransformMd; using TQ = w::RigidTransformQd;
extern "C" void G_tMM() { se3<TM, TM>(); }
extern "C" void G_tMQ() { se3<TM, TQ>(); }
extern "C" void G_tQQ() { se3<TQ, TQ>(); }
extern "C" void G_tsMM() { same<TM, TM>(); }
extern "C" void G_tsQQ() { same<TQ, TQ>(); }
extern "C" void G_tsMQ() { same<TM, TQ>(); }
extern "C" void G_compound() {
    VecIn A, B, C, D;
    double p = precision();
    ex::Two<w::Translationd, w::RelativeRotationd> x{w::Translationd{A.v}, w::RelativeRotationd{B.v}},
      y{w::Translationd{C.v}, w::RelativeRotationd{D.v}};
    wg_i(x.isApprox(y, p), close(A.v, C.v, p) && close(B.v, D.v, p), "x.isApprox(y)");
    wg_i(x.isApprox(x, p), 1, "x.isApprox(x)");
}
extern "C" void G_compound3() {
    VecIn A, B, C, D;
    double p = precision(), s, t;
    wg_real(&s, 1, -1);
    wg_real(&t, 1, -1);
    using X = ex::Tri<w::Translationd, w::Scalar<double>, w::RelativeRotationd>;
    X x{w::Translationd{A.v}, w::Scalar<double>{s}, w::RelativeRotationd{B.v}}, y{w::Translationd{C.v}, w::Scalar<double>{t}, w::RelativeRotationd{D.v}};
    wg_i(x.isApprox(y, p), close(A.v, C.v, p) && close(s, t, p) && close(B.v, D.v, p), "x.isApprox(y)");
}
#endif
