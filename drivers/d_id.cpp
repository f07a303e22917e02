// Identity and Zero leaves, and the random leaves' formula.
#include "leaves.hpp"
namespace wi = wave::internal;
using RM = w::RotationMd;
using RQ = w::RotationQd;
using RA = w::RotationAd;
using TM = w::RigidTransformMd;
using TQ = w::RigidTransformQd;
using Tr = w::Translationd;
using Pt = w::Pointd;
using RR = w::RelativeRotationd;
using Tw = w::Twistd;
using Sc = w::Scalar<double>;
#if PART == 1
// rotations
template <class I_, class B_> static void rot() {
    RotIn B(0);
    VecIn P(3);
    B_ b = mk<B_>(B);
    Tr p{P.v};
    const auto I = I_::Identity();
    w::Identity<I_> J;
    eqm(R(I_{I}), M3::Identity(), "value");
    eqm(R(I_{J}), M3::Identity(), "value of the leaf");
    eqm(R(B_{I}), M3::Identity(), "converted to another representation");
    eqm(R(w::eval(I * b)), B.R, "I * b");
    eqm(R(w::eval(b * I)), B.R, "b * I");
    eqm(R(B_{I_::Identity() * b}), B.R, "temporary I * b");
    eqm(R(w::RotationMd{I * I}), M3::Identity(), "I * I");
    eqm(R(w::RotationMd{inverse(I)}), M3::Identity(), "inverse(I)");
    eqm(w::eval(I * p).value(), P.v, "I * p");
    eqm(w::eval(I * b * p).value(), V3(B.R * P.v), "I * b * p");
    eqm(w::eval(b * I * p).value(), V3(B.R * P.v), "b * I * p");
    eqm(R(w::RotationMd{inverse(b * I)}), M3(B.R.transpose()), "inverse(b * I)");
    eqm(R(w::RotationMd{inverse(b) * I * b}), M3::Identity(), "inverse(b) * I * b");
    RR z{log(I)};
    eqm(z.value(), V3::Zero(), "log(I)");
    eqm(w::eval(I - b).value(), w::eval(log(inverse(b))).value(), "I - b");
    eqm(w::eval(b - I).value(), w::eval(log(b)).value(), "b - I");
    B_ c;
    c = I;
    eqm(R(c), M3::Identity(), "assigned");
    c = b * I;
    eqm(R(c), B.R, "assigned b * I");
}
template <class I_, class B_> static void rotj() {
    RotIn B(0);
    VecIn P(3);
    B_ b = mk<B_>(B);
    Tr p{P.v};
    w::Identity<I_> I;
    jacR(B.R, (I * b).jacobian(b), 0, "d(I b)/db");
    jacR(B.R, (b * I).jacobian(b), 0, "d(b I)/db");
    jacV(P.v, (I * p).jacobian(p), 3, "d(I p)/dp");
    jacV(V3(B.R * P.v), (b * I * p).jacobian(b), 0, "d(b I p)/db");
    jacV(V3(B.R * P.v), (b * I * p).jacobian(p), 3, "d(b I p)/dp");
    jacV(V3(B.R * P.v), (I * b * p).jacobian(b), 0, "d(I b p)/db");
    jacV(w::eval(log(b)).value(), (b - I).jacobian(b), 0, "d(b - I)/db");
    jacR(M3(B.R.transpose()), inverse(I * b).jacobian(b), 0, "d(inverse(I b))/db");
}
#define C(a, b)                                             \
    extern "C" void G_rot_##a##_##b() { rot<a, b>(); }      \
    extern "C" void G_rotj_##a##_##b() { rotj<a, b>(); }
C(RM, RM) C(RQ, RQ) C(RM, RQ) C(RQ, RM)
extern "C" void G_rot_A() {
    RotIn B(0);
    eqm(R(RA{w::Identity<RA>{}}), M3::Identity(), "value");
    eqm(R(RM{RA::Identity()}), M3::Identity(), "converted");
    eqm(R(RM{RA::Identity() * mk<RM>(B)}), B.R, "I * b");
    eqm(R(RM{mk<RA>(B) * RM::Identity()}), B.R, "b * I");
}
extern "C" void G_rot_framed() {
    RotIn B(0);
    VecIn P(3);
    using FI = w::RotationMFd<FA, FB>;
    using FQ = w::RotationQFd<FB, FC>;
    using FP = w::TranslationFd<FB, FC, FD>;
    const auto I = FI::Identity();
    FQ b = mk<FQ>(B);
    FP p{P.v};
    auto e = I * b;
    static_assert(std::is_same<w::LeftFrameOf<decltype(w::eval(e))>, FA>{} && std::is_same<w::RightFrameOf<decltype(w::eval(e))>, FC>{}, "frames");
    eqm(R(w::eval(e)), B.R, "I * b");
    eqm(R(w::RotationMFd<FC, FA>{inverse(e)}), M3(B.R.transpose()), "inverse(I * b)");
    eqm(R(FI{I}), M3::Identity(), "value");
    auto f = I * p;
    static_assert(std::is_same<w::LeftFrameOf<decltype(w::eval(f))>, FA>{}, "frames");
    eqm(w::eval(f).value(), P.v, "I * p");
    jacV(P.v, f.jacobian(p), 3, "d(I p)/dp");
    jacR(B.R, e.jacobian(b), 0, "d(I b)/db");
}
#elif PART == 2
template <class I_, class B_> static void tf() {
    SeIn B(0);
    VecIn P(6);
    B_ b = mk<B_>(B);
    Tr p{P.v};
    const auto I = I_::Identity();
    eqm(T(I_{I}), M4::Identity(), "value");
    eqm(T(B_{I}), M4::Identity(), "converted to another representation");
    eqm(T(w::RigidTransformMd{I * b}), B.T, "I * b");
    eqm(T(w::RigidTransformMd{b * I}), B.T, "b * I");
    eqm(T(w::RigidTransformMd{I * I}), M4::Identity(), "I * I");
    eqm(T(w::RigidTransformMd{inverse(I)}), M4::Identity(), "inverse(I)");
    eqm(w::eval(I * p).value(), P.v, "I * p");
    eqm(w::eval(I * b * p).value(), V3(B.R * P.v + B.t), "I * b * p");
    eqm(w::eval(b * I * p).value(), V3(B.R * P.v + B.t), "b * I * p");
    eqm(T(w::RigidTransformMd{inverse(b) * I * b}), M4::Identity(), "inverse(b) * I * b");
    Tw z{log(I)};
    eqm(z.value(), V6::Zero(), "log(I)");
    eqm(w::eval(b - I).value(), w::eval(log(b)).value(), "b - I");
    eqm(R(w::RotationMd{I.rotation()}), M3::Identity(), "rotation()");
    eqm(Tr{I.translation()}.value(), V3::Zero(), "translation()");
    B_ c;
    c = I;
    eqm(T(c), M4::Identity(), "assigned");
}
template <class I_, class B_> static void tfj() {
    SeIn B(0);
    VecIn P(6);
    B_ b = mk<B_>(B);
    Tr p{P.v};
    const auto I = I_::Identity();
    jacT(B.T, (I * b).jacobian(b), 0, "d(I b)/db");
    jacT(B.T, (b * I).jacobian(b), 0, "d(b I)/db");
    jacV(P.v, (I * p).jacobian(p), 6, "d(I p)/dp");
    jacV(V3(B.R * P.v + B.t), (b * I * p).jacobian(b), 0, "d(b I p)/db");
    jacV(V3(B.R * P.v + B.t), (b * I * p).jacobian(p), 6, "d(b I p)/dp");
    jacT(seinv(B.T), inverse(I * b).jacobian(b), 0, "d(inverse(I b))/db");
}
#define C(a, b)                                          \
    extern "C" void G_tf_##a##_##b() { tf<a, b>(); }     \
    extern "C" void G_tfj_##a##_##b() { tfj<a, b>(); }
C(TM, TM) C(TQ, TQ) C(TM, TQ) C(TQ, TM)
extern "C" void G_tf_framed() {
    SeIn B(0);
    VecIn P(6);
    using FI = w::RigidTransformMFd<FA, FB>;
    using FT = w::RigidTransformMFd<FB, FC>;
    using FP = w::TranslationFd<FB, FB, FD>;
    const auto I = FI::Identity();
    FT b = mk<FT>(B);
    FP p{P.v};
    eqm(T(w::RigidTransformMFd<FA, FC>{I * b}), B.T, "I * b");
    eqm(w::TranslationFd<FA, FA, FD>{I * p}.value(), P.v, "I * p");
    eqm(T(FI{I}), M4::Identity(), "value");
}
#elif PART == 3
template <class L, int N> static void zero() {
    Eigen::Matrix<double, N, 1> v, u;
    wg_real(v.data(), N, 0);
    wg_real(u.data(), N, 6);
    double s;
    wg_real(&s, 1, 12);
    L a{v}, b{u};
    const w::Zero<L> Z;
    using V = Eigen::Matrix<double, N, 1>;
    eqm(L{Z}.value(), V::Zero().eval(), "value");
    eqm(Z.value(), V::Zero().eval(), "value()");
    eqm(w::eval(Z + a).value(), v, "0 + a");
    eqm(w::eval(a + Z).value(), v, "a + 0");
    eqm(w::eval(a - Z).value(), v, "a - 0");
    eqm(w::eval(Z - a).value(), V(-v), "0 - a");
    eqm(L{Z + Z}.value(), V::Zero().eval(), "0 + 0");
    eqm(L{-Z}.value(), V::Zero().eval(), "-0");
    eqm(w::eval(Z + a + b).value(), V(v + u), "0 + a + b");
    eqm(w::eval(a + Z - b).value(), V(v - u), "a + 0 - b");
    eqm(w::eval(-(a + Z)).value(), V(-v), "-(a + 0)");
    eqm(w::eval(Sc{s} * (a + Z)).value(), V(s * v), "s (a + 0)");
    eqm(L{Sc{s} * Z}.value(), V::Zero().eval(), "s 0");
    eqs(w::eval(Z.squaredNorm()).value(), 0, "|0|^2");
    eqs(w::eval(dot(a, Z)).value(), 0, "dot(a, 0)");
    L c{v};
    c = Z;
    eqm(c.value(), V::Zero().eval(), "assigned");
}
template <class L, int N> static void zeroj() {
    Eigen::Matrix<double, N, 1> v, u;
    wg_real(v.data(), N, 0);
    wg_real(u.data(), N, 6);
    L a{v}, b{u};
    const w::Zero<L> Z;
    using V = Eigen::Matrix<double, N, 1>;
    jacV(v, (a + Z).jacobian(a), 0, "d(a + 0)/da");
    jacV(v, (Z + a).jacobian(a), 0, "d(0 + a)/da");
    jacV(V(-v), (Z - a).jacobian(a), 0, "d(0 - a)/da");
    jacV(v, (a - Z).jacobian(a), 0, "d(a - 0)/da");
    jacV(V(u + v), (Z + b + a).jacobian(a), 0, "d(0 + b + a)/da");
    jacV(V(u + v), (Z + b + a).jacobian(b), 6, "d(0 + b + a)/db");
}
extern "C" void G_tr() { zero<Tr, 3>(); }
extern "C" void G_rr() { zero<RR, 3>(); }
extern "C" void G_tw() { zero<Tw, 6>(); }
extern "C" void G_trj() { zeroj<Tr, 3>(); }
extern "C" void G_rrj() { zeroj<RR, 3>(); }
extern "C" void G_twj() { zeroj<Tw, 6>(); }
extern "C" void G_point() {
    VecIn P(0);
    Pt p{P.v};
    const w::Zero<Tr> Z;
    eqm(w::eval(p + Z).value(), P.v, "p + 0");
    eqm(w::eval(p - Z).value(), P.v, "p - 0");
    jacV(P.v, (p + Z).jacobian(p), 0, "d(p + 0)/dp");
}
extern "C" void G_act() {
    RotIn A(0);
    SeIn X(3);
    const w::Zero<Tr> Z;
    eqm(w::eval(mk<RM>(A) * Z).value(), V3::Zero(), "R 0");
    eqm(w::eval(mk<RQ>(A) * Z).value(), V3::Zero(), "R 0");
    eqm(w::eval(mk<TM>(X) * Z).value(), X.t, "T 0");
    eqm(w::eval(mk<TQ>(X) * Z).value(), X.t, "T 0");
    TM x = mk<TM>(X);
    jacV(X.t, (x * Z).jacobian(x), 3, "d(T 0)/dT");
}
extern "C" void G_exp() {
    RotIn A(0);
    SeIn X(3);
    const w::Zero<RR> Z;
    const w::Zero<Tw> Y;
    eqm(R(RM{exp(Z)}), M3::Identity(), "exp(0)");
    eqm(R(RQ{exp(Z)}), M3::Identity(), "exp(0)");
    eqm(T(TM{exp(Y)}), M4::Identity(), "exp(0)");
    eqm(R(w::eval(mk<RM>(A) + Z)), A.R, "a + 0");
    eqm(R(w::eval(mk<RQ>(A) + Z)), A.R, "a + 0");
    eqm(T(w::eval(mk<TM>(X) + Y)), X.T, "a + 0");
    eqm(R(w::eval(exp(Z) * mk<RM>(A))), A.R, "exp(0) a");
    eqm(RR{log(exp(Z))}.value(), V3::Zero(), "log(exp(0))");
    eqm(R(RM{exp(-Z)}), M3::Identity(), "exp(-0)");
    eqm(RR{Y.rotation()}.value(), V3::Zero(), "rotation part of a zero twist");
    eqm(Tr{Y.translation()}.value(), V3::Zero(), "translation part of a zero twist");
    RM a = mk<RM>(A);
    jacR(A.R, (a + Z).jacobian(a), 0, "d(a + 0)/da");
}
extern "C" void G_framed() {
    VecIn P(0);
    using L = w::TranslationFd<FA, FA, FB>;
    using M = w::TranslationFd<FA, FB, FC>;
    L a{P.v};
    const w::Zero<M> Z;
    eqm(w::TranslationFd<FA, FA, FC>{a + Z}.value(), P.v, "a + 0");
    eqm(w::eval(a + Z).value(), P.v, "a + 0");
    eqm(M{Z}.value(), V3::Zero(), "value");
    jacV(P.v, (a + Z).jacobian(a), 0, "d(a + 0)/da");
}
#elif PART == 4
// the same expression with the neutral leaf and with an ordinary leaf holding that value: same Jacobians, with respect to the
// neutral leaf itself and to the other operands, in every mode
struct Ops {
    RotIn A;
    SeIn B;
    VecIn P;
    const RM a = mk<RM>(A);
    const RQ q = mk<RQ>(A);
    const TM t = mk<TM>(B);
    const TQ u = mk<TQ>(B);
    const Tr p{P.v};
    const RR r{P.v};
};
template <bool dyn, class E1, class E2, class Z1, class Z2> static void cmp(const E1 &e, const E2 &f, const Z1 &y, const Z2 &z, const char *l) {
    const auto ref = f.jacobian(z);
    eqm(e.jacobian(y), ref, l);
    eqm(std::get<1>(e.evalWithJacobians(y)), ref, l);
    eqm(std::get<1>(wi::evaluateWithJacobians(e, y)), ref, l);
    if constexpr (dyn) eqm(std::get<1>(wi::evaluateWithDynamicJacobians(e, y)), ref, l);
}
#define NX(name, N_, L_, e)                                \
    extern "C" void G_own_##name() {                       \
        Ops o;                                             \
        const auto &[A, B, P, a, q, t, u, p, r] = o;       \
        const w::N_<L_> x;                                 \
        const L_ y(x);                                     \
        auto f = [&](const auto &x) { return e; };         \
        const auto g = f(x);                               \
        const auto h = f(y);                               \
        cmp<true>(g, h, x, y, #e " wrt the neutral leaf");       \
    }
#define NO(name, dyn, N_, L_, z, e)                        \
    extern "C" void G_other_##name() {                     \
        Ops o;                                             \
        const auto &[A, B, P, a, q, t, u, p, r] = o;       \
        const w::N_<L_> x;                                 \
        const L_ y(x);                                     \
        auto f = [&](const auto &x) { return e; };         \
        const auto g = f(x);                               \
        const auto h = f(y);                               \
        cmp<dyn>(g, h, z, z, #e " wrt " #z);                    \
    }
NX(ax, Identity, RM, a * x)
NX(xa, Identity, RM, x * a)
NX(xp, Identity, RM, x * p)
NX(xma, Identity, RM, x - a)
NX(xr, Identity, RM, x + r)
NX(qxp, Identity, RM, q * x * p)
NX(qxi, Identity, RQ, inverse(q * x) * a)
NX(xt, Identity, TM, x * t)
NX(tx, Identity, TM, t * x)
NX(txp, Identity, TM, x * p)
NX(ux, Identity, TQ, u * x)
NX(uxp, Identity, TQ, x * p)
NX(pz, Zero, Tr, p + x)
NX(pmz, Zero, Tr, p - x)
NX(zmp, Zero, Tr, x - p)
NX(az, Zero, Tr, a * x)
NX(tz, Zero, Tr, t * x)
NX(dotz, Zero, Tr, dot(p, x))
NX(sqz, Zero, Tr, x.squaredNorm())
NX(twoz, Zero, Tr, double(2) * x)
NX(halfz, Zero, Tr, x / double(2))
NX(expz, Zero, RR, exp(x))
NX(apz, Zero, RR, a + x)
NX(qpz, Zero, RR, q + x)
NX(tpz, Zero, Tw, t + x)
NX(upz, Zero, Tw, u + x)
NX(expw, Zero, Tw, exp(x))
NX(expn, Zero, RR, exp(-x))
NX(expt, Zero, Tw, exp(x) * t)
NX(expa, Zero, RR, a * exp(x))
NO(ia, false, Identity, RM, a, inverse(x) * a)
NO(lr, false, Identity, RM, r, log(x) + r)
NO(np, true, Zero, Tr, p, -x + p)
NO(zzp, true, Zero, Tr, p, x + x + p)
NO(zmzp, true, Zero, Tr, p, x - x - p)
NO(ea, true, Zero, RR, a, exp(x) * a)
NO(ler, false, Zero, RR, r, log(exp(x)) + r)
NO(xxa, true, Identity, RM, a, x * x * a)
NO(it, false, Identity, TM, t, inverse(x) * t)
NO(ui, false, Identity, TQ, u, u * inverse(x))
NO(xml, false, Identity, RM, a, (x - x) + log(a))
NO(aml, false, Identity, RM, a, (a - x) + log(a))
NO(xma, true, Identity, RM, a, x - a)
NO(xmt, true, Identity, TM, t, x - t)
NO(tmx, false, Identity, TM, t, t - x)
NO(umx, false, Identity, TQ, u, u - x)
NO(rp, true, Identity, TM, p, x.rotation() * p)
NO(tp, true, Identity, TM, p, x.translation() + p)
NO(zdp, true, Zero, Tr, p, dot(x, p))
NO(zaa, true, Zero, Tr, a, a * x + a * p)
NO(zan, true, Zero, Tr, a, a * -x + a * p)
NO(anz, true, Zero, RR, a, a + -x)
NO(ixa, false, Identity, RM, a, inverse(x * a) * inverse(x))
#endif
