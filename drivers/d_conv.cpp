// Constructors, conversions, storage in user memory, and assignment to an operand.
#include "leaves.hpp"
using RM = w::RotationMd;
using RQ = w::RotationQd;
using RA = w::RotationAd;
using TM = w::RigidTransformMd;
using TQ = w::RigidTransformQd;
using Tr = w::Translationd;
using Pt = w::Pointd;
using RR = w::RelativeRotationd;
using Tw = w::Twistd;
using Sc = w::Scalar<double>;
using FRM = w::RotationMFd<FA, FB>;
using FRQ = w::RotationQFd<FA, FB>;
using FRA = w::RotationAFd<FA, FB>;
using FTM = w::RigidTransformMFd<FA, FB>;
using FTQ = w::RigidTransformQFd<FA, FB>;
using FTr = w::TranslationFd<FA, FB, FC>;
using FPt = w::PointFd<FA, FB>;
using FRR = w::RelativeRotationFd<FA, FB, FC>;
using FTw = w::TwistFd<FA, FB, FC>;
inline M3 RT(const M4 &t) { return t.topLeftCorner<3, 3>(); }
inline V3 tT(const M4 &t) { return t.topRightCorner<3, 1>(); }
struct In {
    RotIn Q{0}, S{3};
    VecIn P{6}, B{9};
    SeIn X{12}, Y{18};
    PhiIn F{24};
    double s = 0, u = 0;
    In() {
        wg_real(&s, 1, 27);
        wg_real(&u, 1, 28);
    }
};
#if PART == 1
// a rotation from every Eigen form, then converted to every other representation
template <class L> static void from() {
    RotIn A(0);
    eqm(R(L{A.R}), A.R, "from a matrix");
    eqm(R(L{A.q}), A.R, "from a quaternion");
    eqm(R(L{A.AA()}), A.R, "from angle and axis");
    M3 rt = A.R.transpose();
    eqm(R(L{A.R.transpose()}), rt, "from a matrix expression");
    eqm(R(L{A.R * A.R}), M3(A.R * A.R), "from a matrix product");
    eqm(R(L{A.q.conjugate()}), rt, "from a quaternion expression");
}
template <class A_, class B_> static void convert() {
    RotIn A(0), B(3);
    const A_ a = mk<A_>(A);
    const A_ c = mk<A_>(B);
    B_ b{a};
    eqm(R(b), A.R, "constructed");
    B_ d{mk<A_>(A)};
    eqm(R(d), A.R, "constructed from a temporary");
    b = c;
    eqm(R(b), B.R, "assigned");
    b = mk<A_>(A);
    eqm(R(b), A.R, "assigned a temporary");
    B_ e{b}, f;
    f = b;
    B_ g{std::move(e)};
    eqm(R(f), A.R, "copy assigned");
    eqm(R(g), A.R, "move constructed");
    e = std::move(f);
    eqm(R(e), A.R, "move assigned");
    eqm(R(a), A.R, "source unchanged");
    eqm(R(c), B.R, "source unchanged");
}
#define C(a, b) \
    extern "C" void G_conv_##a##_##b() { convert<a, b>(); }
extern "C" void G_from_M() { from<RM>(); }
extern "C" void G_from_Q() { from<RQ>(); }
extern "C" void G_from_A() { from<RA>(); }
extern "C" void G_from_FM() { from<FRM>(); }
extern "C" void G_from_FQ() { from<FRQ>(); }
extern "C" void G_from_FA() { from<FRA>(); }
C(RM, RM) C(RM, RQ) C(RM, RA) C(RQ, RM) C(RQ, RQ) C(RQ, RA) C(RA, RM) C(RA, RQ) C(RA, RA)
C(FRM, FRM) C(FRM, FRQ) C(FRM, FRA) C(FRQ, FRM) C(FRQ, FRQ) C(FRQ, FRA) C(FRA, FRM) C(FRA, FRQ) C(FRA, FRA)
#elif PART == 2
// vectors
template <class L, int N> static void vec() {
    Eigen::Matrix<double, N, 1> a, b;
    wg_real(a.data(), N, 0);
    wg_real(b.data(), N, 6);
    L x{a};
    eqm(x.value(), a, "from a vector");
    L y{a + 2 * b};
    eqm(y.value(), (a + 2 * b).eval(), "from a vector expression");
    L z{x};
    x = y;
    eqm(z.value(), a, "copied");
    eqm(x.value(), (a + 2 * b).eval(), "assigned");
    x.value() = b;
    eqm(x.value(), b, "written through value()");
    const L &k = x;
    eqm(k.value(), b, "read through value()");
    eqm(L{b}.value(), b, "value of a temporary");
    L m{std::move(z)};
    eqm(m.value(), a, "moved");
    m = std::move(x);
    eqm(m.value(), b, "move assigned");
    m = L{a};
    eqm(m.value(), a, "assigned a temporary");
}
template <class L> static void xyz() {
    V3 v;
    wg_real(v.data(), 3, 0);
    L a{v(0), v(1), v(2)};
    eqm(a.value(), v, "from three numbers");
    eqm(L(1, 2, 3).value(), V3(1, 2, 3), "from three integers");
}
extern "C" void G_tr() { vec<Tr, 3>(); xyz<Tr>(); }
extern "C" void G_rr() { vec<RR, 3>(); xyz<RR>(); }
extern "C" void G_pt() { vec<Pt, 3>(); xyz<Pt>(); }
extern "C" void G_tw() { vec<Tw, 6>(); }
extern "C" void G_ftr() { vec<FTr, 3>(); xyz<FTr>(); }
extern "C" void G_frr() { vec<FRR, 3>(); xyz<FRR>(); }
extern "C" void G_fpt() { vec<FPt, 3>(); xyz<FPt>(); }
extern "C" void G_ftw() { vec<FTw, 6>(); }
extern "C" void G_angle_axis() {
    double t;
    V3 a, n;
    wg_real(&t, 1, 0);
    wg_real(a.data(), 3, 1);
    n = a / std::sqrt(a(0) * a(0) + a(1) * a(1) + a(2) * a(2));
    RR r;
    RR &s = r.setFromAngleAndAxis(t, a);
    eqm(r.value(), V3(t * n), "setFromAngleAndAxis");
    eqm(s.value(), V3(t * n), "setFromAngleAndAxis returns its object");
    wg_i(&s == &r, 1, "setFromAngleAndAxis returns a reference to its object");
    eqm(RR::FromAngleAndAxis(t, a).value(), V3(t * n), "FromAngleAndAxis");
    eqm(RR::FromAngleAndAxis(t, a + a).value(), V3(t * n), "FromAngleAndAxis of an expression");
}
extern "C" void G_twist_parts() {
    V3 a, b, c;
    wg_real(a.data(), 3, 0);
    wg_real(b.data(), 3, 3);
    wg_real(c.data(), 3, 6);
    Tw x{a, b};
    V6 ab;
    ab << a, b;
    eqm(x.value(), ab, "from rotation and translation parts");
    eqm(Tw(a + c, b - c).value().head<3>(), V3(a + c), "from expressions");
    eqm(Tw(a + c, b - c).value().tail<3>(), V3(b - c), "from expressions");
    eqm(x.rotation().value(), a, "rotation()");
    eqm(x.translation().value(), b, "translation()");
    const Tw &k = x;
    eqm(k.rotation().value(), a, "const rotation()");
    eqm(k.translation().value(), b, "const translation()");
    x.rotation() = RR{c};
    eqm(x.value().head<3>(), c, "rotation() is writable");
    eqm(x.value().tail<3>(), b, "writing rotation() leaves the translation");
    x.translation() = Tr{a};
    eqm(x.value().head<3>(), c, "writing translation() leaves the rotation");
    eqm(x.value().tail<3>(), a, "translation() is writable");
    eqm(k.rotation().value(), c, "const rotation() sees the change");
}
extern "C" void G_scalar() {
    double s, t;
    wg_real(&s, 1, 0);
    wg_real(&t, 1, 1);
    Sc a{s};
    eqs(a.value(), s, "from a number");
    a = t;
    eqs(a.value(), t, "assigned a number");
    Sc b = a;
    a = s;
    eqs(b.value(), t, "copied");
    const double d = b;
    eqs(d, t, "converted to a number");
    const double e = b + a;
    eqs(e, t + s, "expression converted to a number");
    b.value() = s;
    eqs(b.value(), s, "written through value()");
    a = a * b;
    eqs(a.value(), s * s, "assigned an expression of itself");
    Sc c{a - b};
    eqs(c.value(), s * s - s, "constructed from an expression");
    eqs(Sc{t}.value(), t, "value of a temporary");
}
#elif PART == 3
// rigid transforms
template <class L> static void from() {
    SeIn X(0);
    eqm(T(L{X.R, X.t}), X.T, "from matrix and vector");
    eqm(T(L{X.q, X.t}), X.T, "from quaternion and vector");
    eqm(T(L{Eigen::AngleAxisd(X.aa[0], V3(X.aa[1], X.aa[2], X.aa[3])), X.t}), X.T, "from angle-axis and vector");
    eqm(T(L{X.R.transpose(), X.t + X.t}), se(M3(X.R.transpose()), V3(2 * X.t)), "from expressions");
}
template <class L> static void fromleaf() {
    SeIn X(0);
    eqm(T(L{mkrot<RM>(X), Tr{X.t}}), X.T, "from RotationM and Translation");
    eqm(T(L{mkrot<RQ>(X), Tr{X.t}}), X.T, "from RotationQ and Translation");
    eqm(T(L{mkrot<RA>(X), Tr{X.t}}), X.T, "from RotationA and Translation");
    eqm(T(L{inverse(mkrot<RM>(X)), Tr{X.t} + Tr{X.t}}), se(M3(X.R.transpose()), V3(2 * X.t)), "from expressions");
}
template <class A_, class B_> static void convert() {
    SeIn X(0), Y(6);
    const A_ a = mk<A_>(X), c = mk<A_>(Y);
    B_ b{a};
    eqm(T(b), X.T, "constructed");
    B_ d{mk<A_>(X)};
    eqm(T(d), X.T, "constructed from a temporary");
    b = c;
    eqm(T(b), Y.T, "assigned");
    b = mk<A_>(X);
    eqm(T(b), X.T, "assigned a temporary");
    B_ e{b}, f;
    f = b;
    B_ g{std::move(e)};
    eqm(T(f), X.T, "copy assigned");
    eqm(T(g), X.T, "move constructed");
    e = std::move(f);
    eqm(T(e), X.T, "move assigned");
    eqm(T(a), X.T, "source unchanged");
    eqm(T(c), Y.T, "source unchanged");
}
template <class L> static void blocks() {
    SeIn X(0), Y(6);
    L a = mk<L>(X);
    const L &k = a;
    eqm(R(a.rotationBlock()), X.R, "rotationBlock()");
    eqm(a.translationBlock().value(), X.t, "translationBlock()");
    eqm(R(k.rotationBlock()), X.R, "const rotationBlock()");
    eqm(k.translationBlock().value(), X.t, "const translationBlock()");
    a.rotationBlock() = mkrot<RM>(Y);
    eqm(T(a), se(Y.R, X.t), "rotationBlock() is writable");
    a.translationBlock() = Tr{Y.t};
    eqm(T(a), Y.T, "translationBlock() is writable");
    a.rotationBlock() = mkrot<RQ>(X);
    eqm(T(a), se(X.R, Y.t), "rotationBlock() is writable from a quaternion");
    eqm(R(w::eval(a.rotation())), X.R, "rotation() sees the change");
    eqm(w::eval(k.translation()).value(), Y.t, "translation() sees the change");
}
// the parts of a leaf can be set through rotation() and translation()
template <class L> static void parts() {
    SeIn X(0), Y(6);
    L a = mk<L>(X);
    a.rotation() = mkrot<RM>(Y);
    eqm(T(a), se(Y.R, X.t), "rotation() = leaf");
    a.translation() = Tr{Y.t};
    eqm(T(a), Y.T, "translation() = leaf");
    a.rotation() = mkrot<RQ>(X) * mkrot<RM>(Y);
    eqm(T(a), se(M3(X.R * Y.R), Y.t), "rotation() = expression");
    a.translation() = Tr{X.t} + Tr{Y.t};
    eqm(T(a), se(M3(X.R * Y.R), V3(X.t + Y.t)), "translation() = expression");
}
extern "C" void G_from_M() { from<TM>(); fromleaf<TM>(); }
extern "C" void G_from_Q() { from<TQ>(); fromleaf<TQ>(); }
extern "C" void G_from_FM() { from<FTM>(); }
extern "C" void G_from_FQ() { from<FTQ>(); }
extern "C" void G_from_44() {
    SeIn X(0);
    eqm(T(TM{X.T}), X.T, "from a 4x4 matrix");
    eqm(T(TM{X.T * X.T}), M4(X.T * X.T), "from a 4x4 expression");
    eqm(T(FTM{X.T}), X.T, "from a 4x4 matrix");
    TM d;
    eqm(d.value().row(3), Eigen::RowVector4d(0, 0, 0, 1), "last row after default construction");
}
#define C(a, b) \
    extern "C" void G_conv_##a##_##b() { convert<a, b>(); }
C(TM, TM) C(TM, TQ) C(TQ, TM) C(TQ, TQ) C(FTM, FTM) C(FTM, FTQ) C(FTQ, FTM) C(FTQ, FTQ)
extern "C" void G_blocks_M() { blocks<TM>(); }
extern "C" void G_blocks_Q() { blocks<TQ>(); }
extern "C" void G_parts_M() { parts<TM>(); }
extern "C" void G_parts_Q() { parts<TQ>(); }
#elif PART == 4
// leaves over memory of the user
template <class V> using Map = Eigen::Map<V>;
extern "C" void G_map_vec() {
    V3 v, b;
    double m[3];
    wg_real(v.data(), 3, 0);
    wg_real(b.data(), 3, 3);
    m[0] = v(0), m[1] = v(1), m[2] = v(2);
    using MT = w::Translation<Eigen::Map<V3>>;
    using CT = w::Translation<Eigen::Map<const V3>>;
    MT t{Eigen::Map<V3>(m)};
    CT c{Eigen::Map<const V3>(m)};
    eqm(t.value(), v, "map");
    eqm(c.value(), v, "const map");
    auto e = t + Tr{b};
    auto f = c - Tr{b};
    eqm(w::eval(e).value(), V3(v + b), "expression of a map");
    eqm(w::eval(f).value(), V3(v - b), "expression of a const map");
    jacV(V3(v + b), e.jacobian(t), 0, "derivative wrt a map");
    m[0] = b(0), m[1] = b(1), m[2] = b(2);
    eqm(w::eval(e).value(), V3(b + b), "expression sees the memory");
    t = Tr{v} - Tr{b};
    eqm(V3(m[0], m[1], m[2]), V3(v - b), "assigning an expression writes the memory");
    t = Tr{v};
    eqm(V3(m[0], m[1], m[2]), v, "assigning a leaf writes the memory");
    t = t + t;
    eqm(V3(m[0], m[1], m[2]), V3(2 * v), "assigning an expression of itself");
    t.value() = b;
    eqm(V3(m[0], m[1], m[2]), b, "writing value()");
    Tr p{t};
    m[0] = 0;
    eqm(p.value(), b, "a plain leaf made from a map is a copy");
    double n[3] = {1, 2, 3};
    MT u{Eigen::Map<V3>(n)};
    u = t;
    eqm(V3(n[0], n[1], n[2]), V3(0, b(1), b(2)), "assigning a map copies the numbers");
    auto x = w::eval(t * 1.0);
    static_assert(std::is_same<decltype(x), Tr>{}, "plain result");
}
extern "C" void G_map_rot() {
    RotIn A(0), B(3);
    VecIn P(6);
    double m[9];
    for (int i = 0; i < 9; ++i) m[i] = A.R.data()[i];
    using MR = w::MatrixRotation<Eigen::Map<M3>>;
    using CR = w::MatrixRotation<Eigen::Map<const M3>>;
    MR r{Eigen::Map<M3>(m)};
    CR c{Eigen::Map<const M3>(m)};
    Tr p{P.v};
    RM b = mk<RM>(B);
    auto e = r * b * p;
    auto g = c * inverse(b);
    eqm(w::eval(e).value(), V3(A.R * B.R * P.v), "expression of a map");
    eqm(R(w::eval(g)), M3(A.R * B.R.transpose()), "expression of a const map");
    eqm(w::eval(log(r)).value(), w::eval(log(RM{A.R})).value(), "log of a map");
    auto [v, jr, jb, jp] = e.evalWithJacobians(r, b, p);
    eqm(v.value(), V3(A.R * B.R * P.v), "value");
    jacV(V3(A.R * B.R * P.v), jr, 0, "derivative wrt a map");
    jacV(V3(A.R * B.R * P.v), jb, 3, "derivative wrt a leaf");
    jacV(V3(A.R * B.R * P.v), jp, 6, "derivative wrt a leaf");
    r = r * b;
    M3 AB = A.R * B.R;
    eqm(Eigen::Map<M3>(m), AB, "assigning an expression of itself");
    eqm(w::eval(e).value(), V3(AB * B.R * P.v), "expression sees the memory");
    r = inverse(r);
    eqm(Eigen::Map<M3>(m), M3(AB.transpose()), "assigning its inverse");
    r = mk<RQ>(B);
    eqm(Eigen::Map<M3>(m), B.R, "assigning another representation");
    RM k{r};
    m[0] = 0;
    eqm(k.value(), B.R, "copy");
}
extern "C" void G_map_quat() {
    RotIn A(0), B(3);
    double m[4];
    for (int i = 0; i < 4; ++i) m[i] = A.q.coeffs()[i];
    using MQ = w::QuaternionRotation<Eigen::Map<Q4>>;
    using CQ = w::QuaternionRotation<Eigen::Map<const Q4>>;
    MQ r{Eigen::Map<Q4>(m)};
    CQ c{Eigen::Map<const Q4>(m)};
    RQ b = mk<RQ>(B);
    RM bm = mk<RM>(B);
    eqm(R(w::eval(r * b)), M3(A.R * B.R), "expression of a map");
    eqm(R(w::eval(c * bm)), M3(A.R * B.R), "expression of a const map with a matrix");
    eqm(R(w::eval(inverse(c))), M3(A.R.transpose()), "inverse of a const map");
    auto [v, jr] = (r * b).evalWithJacobians(r);
    jacR(R(v), jr, 0, "derivative wrt a map");
    r = r * b;
    eqm(rm(Q4(m[3], m[0], m[1], m[2])), M3(A.R * B.R), "assigning an expression of itself");
    r = inverse(r);
    eqm(rm(Q4(m[3], m[0], m[1], m[2])), M3((A.R * B.R).transpose()), "assigning its inverse");
    r = bm;
    eqm(rm(Q4(m[3], m[0], m[1], m[2])), B.R, "assigning another representation");
}
extern "C" void G_map_se() {
    SeIn X(0), Y(6);
    VecIn P(12);
    double m[16];
    for (int i = 0; i < 16; ++i) m[i] = X.T.data()[i];
    using MT = w::MatrixRigidTransform<Eigen::Map<M4>>;
    MT t{Eigen::Map<M4>(m)};
    TM y = mk<TM>(Y);
    TQ yq = mk<TQ>(Y);
    eqm(w::eval(t * Tr{P.v}).value(), V3(X.R * P.v + X.t), "expression of a map");
    eqm(T(w::eval(t * y)), M4(X.T * Y.T), "product with a leaf");
    eqm(R(w::eval(t.rotation())), X.R, "rotation()");
    auto [v, jt] = (t * y).evalWithJacobians(t);
    jacT(T(v), jt, 0, "derivative wrt a map");
    t = t * y;
    eqm(Eigen::Map<M4>(m), M4(X.T * Y.T), "assigning an expression of itself");
    t = yq;
    eqm(Eigen::Map<M4>(m), Y.T, "assigning another representation");
    t = inverse(t);
    eqm(Eigen::Map<M4>(m), seinv(Y.T), "assigning its inverse");
}
extern "C" void G_map_twist() {
    V6 v, b;
    wg_real(v.data(), 6, 0);
    wg_real(b.data(), 6, 6);
    double m[6];
    for (int i = 0; i < 6; ++i) m[i] = v[i];
    w::Twist<Eigen::Map<V6>> t{Eigen::Map<V6>(m)};
    w::RelativeRotation<Eigen::Map<V3>> r{Eigen::Map<V3>(m)};
    eqm(w::eval(t + Tw{b}).value(), V6(v + b), "expression of a map");
    eqm(w::eval(-r).value(), V3(-v.head<3>()), "expression of a map");
    eqm(T(w::eval(exp(t))), T(w::eval(exp(Tw{v}))), "exp of a map");
    eqm(R(w::eval(exp(r))), R(w::eval(exp(RR{v.head<3>()}))), "exp of a map");
    t = t - Tw{b};
    eqm(Eigen::Map<V6>(m), V6(v - b), "assigning an expression of itself");
    eqm(w::eval(r).value(), V3((v - b).head<3>()), "two leaves over one memory");
}
#elif PART == 5
// the result of an expression assigned to one of its operands
template <class A_, class B_, int N> static void rot() {
    RotIn A(0), B(3);
    B_ b = mk<B_>(B);
    if constexpr (N < 0 || N == 0)
        { A_ a = mk<A_>(A); a = a * b; eqm(R(a), M3(A.R * B.R), "a = a * b"); }
    if constexpr (N < 0 || N == 1)
        { A_ a = mk<A_>(A); a = b * a; eqm(R(a), M3(B.R * A.R), "a = b * a"); }
    if constexpr (N < 0 || N == 2)
        { A_ a = mk<A_>(A); a = inverse(a); eqm(R(a), M3(A.R.transpose()), "a = inverse(a)"); }
    if constexpr (N < 0 || N == 3)
        { A_ a = mk<A_>(A); a = inverse(inverse(a)); eqm(R(a), A.R, "a = inverse(inverse(a))"); }
    if constexpr (N < 0 || N == 4)
        { A_ a = mk<A_>(A); a = a * b * a; eqm(R(a), M3(A.R * B.R * A.R), "a = a * b * a"); }
    if constexpr (N < 0 || N == 5)
        { A_ a = mk<A_>(A); a = inverse(a) * b * a; eqm(R(a), M3(A.R.transpose() * B.R * A.R), "a = inverse(a) * b * a"); }
    if constexpr (N < 0 || N == 6)
        { A_ a = mk<A_>(A); a = a * a; eqm(R(a), M3(A.R * A.R), "a = a * a"); }
    if constexpr (N < 0 || N == 7)
        { A_ a = mk<A_>(A); A_ &c = a; a = c; eqm(R(a), A.R, "a = a"); }
}
template <class A_, class B_> static void tf() {
    SeIn A(0), B(6);
    B_ b = mk<B_>(B);
    { A_ a = mk<A_>(A); a = a * b; eqm(T(a), M4(A.T * B.T), "a = a * b"); }
    { A_ a = mk<A_>(A); a = b * a; eqm(T(a), M4(B.T * A.T), "a = b * a"); }
    { A_ a = mk<A_>(A); a = inverse(a); eqm(T(a), seinv(A.T), "a = inverse(a)"); }
    { A_ a = mk<A_>(A); a = a * a; eqm(T(a), M4(A.T * A.T), "a = a * a"); }
    { A_ a = mk<A_>(A); a = inverse(a) * b * a; eqm(T(a), M4(seinv(A.T) * B.T * A.T), "a = inverse(a) * b * a"); }
    { A_ a = mk<A_>(A); a.rotationBlock() = a.rotation() * b.rotation(); eqm(T(a), se(M3(A.R * B.R), A.t), "part of a from a"); }
    { A_ a = mk<A_>(A); a.rotationBlock() = inverse(a.rotation()); eqm(T(a), se(M3(A.R.transpose()), A.t), "part of a from a"); }
    { A_ a = mk<A_>(A); a.translationBlock() = a * a.translation(); eqm(T(a), se(A.R, V3(A.R * A.t + A.t)), "part of a from a"); }
}
extern "C" void G_rot_MM() { rot<RM, RM, -1>(); }
extern "C" void G_rot_MQ() { rot<RM, RQ, -1>(); }
extern "C" void G_rot_QQ() { rot<RQ, RQ, -1>(); }
extern "C" void G_rot_QM0() { rot<RQ, RM, 0>(); }
extern "C" void G_rot_QM1() { rot<RQ, RM, 1>(); }
extern "C" void G_rot_QM2() { rot<RQ, RM, 2>(); }
extern "C" void G_rot_QM3() { rot<RQ, RM, 3>(); }
extern "C" void G_rot_QM4() { rot<RQ, RM, 4>(); }
extern "C" void G_rot_QM5() { rot<RQ, RM, 5>(); }
extern "C" void G_rot_QM6() { rot<RQ, RM, 6>(); }
extern "C" void G_rot_QM7() { rot<RQ, RM, 7>(); }
extern "C" void G_rot_AM0() { rot<RA, RM, 0>(); }
extern "C" void G_rot_AM1() { rot<RA, RM, 1>(); }
extern "C" void G_rot_AM2() { rot<RA, RM, 2>(); }
extern "C" void G_rot_AM3() { rot<RA, RM, 3>(); }
extern "C" void G_rot_AM4() { rot<RA, RM, 4>(); }
extern "C" void G_rot_AM5() { rot<RA, RM, 5>(); }
extern "C" void G_rot_AM6() { rot<RA, RM, 6>(); }
extern "C" void G_rot_AM7() { rot<RA, RM, 7>(); }
extern "C" void G_tf_MM() { tf<TM, TM>(); }
extern "C" void G_tf_MQ() { tf<TM, TQ>(); }
extern "C" void G_tf_QQ() { tf<TQ, TQ>(); }
extern "C" void G_tf_QM() { tf<TQ, TM>(); }
extern "C" void G_vec() {
    In i;
    { Tr p{i.P.v}; p = p + p; eqm(p.value(), V3(2 * i.P.v), "p = p + p"); }
    { Tr p{i.P.v}; p = Tr{i.B.v} - p; eqm(p.value(), V3(i.B.v - i.P.v), "p = b - p"); }
    { Tr p{i.P.v}; p = -p; eqm(p.value(), V3(-i.P.v), "p = -p"); }
    { Tr p{i.P.v}; p = mk<RM>(i.Q) * p; eqm(p.value(), V3(i.Q.R * i.P.v), "p = R * p"); }
    { Tr p{i.P.v}; p = mk<RQ>(i.Q) * p; eqm(p.value(), V3(i.Q.R * i.P.v), "p = R * p"); }
    { Tr p{i.P.v}; p = mk<RM>(i.Q) * p + p; eqm(p.value(), V3(i.Q.R * i.P.v + i.P.v), "p = R * p + p"); }
    { Tr p{i.P.v}; p = mk<TM>(i.X) * p; eqm(p.value(), V3(i.X.R * i.P.v + i.X.t), "p = T * p"); }
    { Tr p{i.P.v}; p = p.norm() * p; eqm(p.value(), V3(i.P.v.norm() * i.P.v), "p = |p| p"); }
    { Tr p{i.P.v}; p = p / p.norm(); eqm(p.value(), V3(i.P.v / i.P.v.norm()), "p = p / |p|"); }
    { Tr p{i.P.v}; p = p.normalized(); eqm(p.value(), V3(i.P.v / i.P.v.norm()), "p = p.normalized()"); }
    { Pt p{i.P.v}; p = p + Tr{i.B.v}; eqm(p.value(), V3(i.P.v + i.B.v), "p = p + t"); }
    { RR p{i.F.v}; p = p + p; eqm(p.value(), V3(2 * i.F.v), "p = p + p"); }
    { RR p{i.F.v}; p = log(exp(p)); eqm(p.value(), i.F.v, "p = log(exp(p))"); }
    { Sc s{i.s}; s = s * s; eqs(s.value(), i.s * i.s, "s = s * s"); }
    { Sc s{i.s}; s = Sc{i.u} / s; eqs(s.value(), i.u / i.s, "s = u / s"); }
}
extern "C" void G_box() {
    In i;
    RR v{i.F.v};
    { RM a = mk<RM>(i.Q); a = a + v; eqm(R(a), M3(R(w::eval(exp(v))) * i.Q.R), "a = a + v"); }
    { RQ a = mk<RQ>(i.Q); a = a + v; eqm(R(a), M3(R(w::eval(exp(v))) * i.Q.R), "a = a + v"); }
    { RR d{i.F.v}; RM a = mk<RM>(i.Q); d = (a + d) - a; eqm(d.value(), i.F.v, "d = (a + d) - a"); }
}
extern "C" void G_framed() {
    RotIn A(0), B(3);
    VecIn P(6);
    using RAA = w::RotationMFd<FA, FA>;
    using RQA = w::RotationQFd<FA, FA>;
    using TA = w::TranslationFd<FA, FA, FB>;
    { RAA a = mk<RAA>(A); a = a * mk<RQA>(B); eqm(R(a), M3(A.R * B.R), "a = a * b"); }
    { RAA a = mk<RAA>(A); a = inverse(a); eqm(R(a), M3(A.R.transpose()), "a = inverse(a)"); }
    { RQA a = mk<RQA>(A); a = mk<RAA>(B) * a; eqm(R(a), M3(B.R * A.R), "a = b * a"); }
    { RQA a = mk<RQA>(A); a = inverse(a); eqm(R(a), M3(A.R.transpose()), "a = inverse(a)"); }
    { TA p{P.v}; p = mk<RAA>(A) * p; eqm(p.value(), V3(A.R * P.v), "p = R * p"); }
    { TA p{P.v}; p = 2.0 * p; eqm(p.value(), V3(2 * P.v), "p = 2 p"); }
}
#endif
