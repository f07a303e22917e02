// Rigid transforms: every pair of representations, every operator, member access.
#include "leaves.hpp"

template <class A_, class B_>
static void pair() {
    SeIn A(0), B(6);
    VecIn t(12);
    A_ a = mk<A_>(A);
    B_ b = mk<B_>(B);
    w::Translationd p{t.v};
    M4 AB = A.T * B.T;
    M4 Ai = seinv(A.T), Bi = seinv(B.T);
    {
        auto [v, j1, j2] = (a * b).evalWithJacobians(a, b);
        eqm(T(v), AB, "a*b");
        jacT(T(v), j1, 0, "d(a*b)/da");
        jacT(T(v), j2, 6, "d(a*b)/db");
    }
    {
        auto [v, j1, j2] = (inverse(a) * b).evalWithJacobians(a, b);
        eqm(T(v), Ai * B.T, "inverse(a)*b");
        jacT(T(v), j1, 0, "d(inverse(a)*b)/da");
        jacT(T(v), j2, 6, "d(inverse(a)*b)/db");
    }
    {
        auto [v, j1, j2] = inverse(a * b).evalWithJacobians(a, b);
        eqm(T(v), Bi * Ai, "inverse(a*b)");
        jacT(T(v), j1, 0, "d(inverse(a*b))/da");
        jacT(T(v), j2, 6, "d(inverse(a*b))/db");
    }
    {
        auto [v, j1, j2, j3] = (a * b * p).evalWithJacobians(a, b, p);
        V3 ex = (AB.topLeftCorner<3, 3>() * t.v + AB.topRightCorner<3, 1>());
        eqm(v.value(), ex, "a*b*p");
        jacV(v.value(), j1, 0, "d(a*b*p)/da");
        jacV(v.value(), j2, 6, "d(a*b*p)/db");
        jacV(v.value(), j3, 12, "d(a*b*p)/dp");
    }
    {
        auto [v, j1, j2] = (a * b * a).evalWithJacobians(a, b);
        eqm(T(v), AB * A.T, "a*b*a");
        jacT(T(v), j1, 0, "d(a*b*a)/da");
        jacT(T(v), j2, 6, "d(a*b*a)/db");
    }
}

template <class A_, class B_>
static void laws() {
    SeIn A, B;
    A_ a = mk<A_>(A);
    B_ b = mk<B_>(B);
    eqm(T(eval(a * inverse(a))), M4::Identity(), "a*inverse(a)");
    eqm(T(eval(inverse(a) * a)), M4::Identity(), "inverse(a)*a");
    eqm(T(eval(inverse(inverse(a)))), A.T, "inverse(inverse(a))");
    eqm(T(eval(inverse(a * b))), seinv(A.T * B.T), "inverse of a product");
}
template <class A_, class B_>
static void assoc() {
    SeIn A, B;
    A_ a = mk<A_>(A);
    B_ b = mk<B_>(B);
    eqm(T(eval((a * b) * a)), A.T * B.T * A.T, "(a*b)*a");
    eqm(T(eval(a * (b * a))), A.T * B.T * A.T, "a*(b*a)");
}
template <class A_, class B_>
static void toM() {
    SeIn A, B;
    A_ a = mk<A_>(A);
    B_ b = mk<B_>(B);
    eqm(T(w::RigidTransformMd{a * b}), A.T * B.T, "RigidTransformMd{a*b}");
    w::RigidTransformMd m;
    m = a * inverse(b);
    eqm(T(m), A.T * seinv(B.T), "RigidTransformMd = a*inverse(b)");
}
template <class A_, class B_>
static void toQ() {
    SeIn A, B;
    A_ a = mk<A_>(A);
    B_ b = mk<B_>(B);
    eqm(T(w::RigidTransformQd{a * b}), A.T * B.T, "RigidTransformQd{a*b}");
    w::RigidTransformQd q;
    q = inverse(a) * b;
    eqm(T(q), seinv(A.T) * B.T, "RigidTransformQd = inverse(a)*b");
}

template <class A_, class B_>
static void framed() {
    SeIn A(0), B(6);
    VecIn t(12);
    auto a = mk<w::Framed<A_, FA, FB>>(A);
    auto b = mk<w::Framed<B_, FB, FC>>(B);
    w::TranslationFd<FC, FC, FD> p{t.v};
    M4 AB = A.T * B.T;
    {
        auto [v, j1, j2] = (a * b).evalWithJacobians(a, b);
        eqm(T(v), AB, "a*b");
        jacT(T(v), j1, 0, "d(a*b)/da");
        jacT(T(v), j2, 6, "d(a*b)/db");
    }
    {
        auto [v, j1, j2] = inverse(a * b).evalWithJacobians(a, b);
        eqm(T(v), seinv(AB), "inverse(a*b)");
        jacT(T(v), j1, 0, "d(inverse(a*b))/da");
        jacT(T(v), j2, 6, "d(inverse(a*b))/db");
    }
    {
        auto [v, j1, j2, j3] = (a * (b * p)).evalWithJacobians(a, b, p);
        V3 ex = (AB.topLeftCorner<3, 3>() * t.v + AB.topRightCorner<3, 1>());
        eqm(v.value(), ex, "a*(b*p)");
        jacV(v.value(), j1, 0, "d(a*(b*p))/da");
        jacV(v.value(), j2, 6, "d(a*(b*p))/db");
        jacV(v.value(), j3, 12, "d(a*(b*p))/dp");
    }
    w::RigidTransformMFd<FA, FC> m{a * b};
    eqm(T(m), AB, "framed RigidTransformM{a*b}");
    w::RigidTransformQFd<FC, FA> q{inverse(a * b)};
    eqm(T(q), seinv(AB), "framed RigidTransformQ{inverse(a*b)}");
}

template <class A_>
static void one() {
    SeIn A(0);
    VecIn t(6);
    A_ a = mk<A_>(A);
    w::Translationd p{t.v};
    M4 Ai = seinv(A.T);
    {
        auto [v, j1] = inverse(a).evalWithJacobians(a);
        eqm(T(v), Ai, "inverse(a)");
        jacT(T(v), j1, 0, "d(inverse(a))/da");
    }
    {
        auto [v, j1, j2] = (a * p).evalWithJacobians(a, p);
        eqm(v.value(), A.R * t.v + A.t, "a*p");
        jacV(v.value(), j1, 0, "d(a*p)/da");
        jacV(v.value(), j2, 6, "d(a*p)/dp");
    }
    {
        auto [v, j1, j2] = (inverse(a) * p).evalWithJacobians(a, p);
        eqm(v.value(), A.R.transpose() * (t.v - A.t), "inverse(a)*p");
        jacV(v.value(), j1, 0, "d(inverse(a)*p)/da");
        jacV(v.value(), j2, 6, "d(inverse(a)*p)/dp");
    }
    {
        auto [v, j1] = (a * a).evalWithJacobians(a);
        eqm(T(v), A.T * A.T, "a*a");
        jacT(T(v), j1, 0, "d(a*a)/da");
    }
    {
        auto [v, j1] = a.rotation().evalWithJacobians(a);
        eqm(R(v), A.R, "a.rotation()");
        jacR(R(v), j1, 0, "d(a.rotation())/da");
    }
    {
        auto [v, j1] = a.translation().evalWithJacobians(a);
        eqm(v.value(), A.t, "a.translation()");
        jacV(v.value(), j1, 0, "d(a.translation())/da");
    }
    {
        auto [v, j1, j2] = (a.rotation() * p + a.translation()).evalWithJacobians(a, p);
        eqm(v.value(), A.R * t.v + A.t, "a.rotation()*p+a.translation()");
        jacV(v.value(), j1, 0, "d(a.rotation()*p+a.translation())/da");
        jacV(v.value(), j2, 6, "d(a.rotation()*p+a.translation())/dp");
    }
    {
        auto e = a * inverse(a) * a;
        auto [v, j1] = e.evalWithJacobians(a);
        eqm(T(v), A.T, "a*inverse(a)*a");
        jacT(T(v), j1, 0, "d(a*inverse(a)*a)/da");
    }
    {
        auto e = a * a;
        auto [v, j1] = e.translation().evalWithJacobians(a);
        eqm(v.value(), A.R * A.t + A.t, "(a*a).translation()");
        jacV(v.value(), j1, 0, "d((a*a).translation())/da");
        auto [r, j2] = e.rotation().evalWithJacobians(a);
        eqm(R(r), A.R * A.R, "(a*a).rotation()");
        jacR(R(r), j2, 0, "d((a*a).rotation())/da");
    }
    {
        auto [v, j1] = inverse(a).translation().evalWithJacobians(a);
        eqm(v.value(), -(A.R.transpose() * A.t), "inverse(a).translation()");
        jacV(v.value(), j1, 0, "d(inverse(a).translation())/da");
    }
    eqm(T(eval(a)), A.T, "eval(a)");
    // writing through the parts
    {
        RotIn B;
        A_ c = a;
        c.rotation() = w::RotationMd{B.R};
        eqm(T(c), se(B.R, A.t), "a.rotation() = R");
        c.translation() = p;
        eqm(T(c), se(B.R, t.v), "a.translation() = p");
        c.translation() = c.rotation() * p;
        eqm(T(c), se(B.R, B.R * t.v), "a.translation() = a.rotation()*p");
    }
}
// the rotation of a temporary transform expression is usable like any other
template <class A_>
static void rot_of_temporary() {
    SeIn A(0);
    A_ a = mk<A_>(A);
    auto [v, j1] = inverse(a).rotation().evalWithJacobians(a);
    eqm(R(v), A.R.transpose(), "inverse(a).rotation()");
    jacR(R(v), j1, 0, "d(inverse(a).rotation())/da");
}

#define PAIR(n, A, B)                                \
    extern "C" void G_pair_##n() { pair<A, B>(); }   \
    extern "C" void G_laws_##n() { laws<A, B>(); }   \
    extern "C" void G_assoc_##n() { assoc<A, B>(); } \
    extern "C" void G_toM_##n() { toM<A, B>(); }     \
    extern "C" void G_toQ_##n() { toQ<A, B>(); }     \
    extern "C" void G_framed_##n() { framed<A, B>(); }
#if PART == 1
PAIR(MM, w::RigidTransformMd, w::RigidTransformMd)
PAIR(MQ, w::RigidTransformMd, w::RigidTransformQd)
extern "C" void G_one_M() { one<w::RigidTransformMd>(); }
#elif PART == 2
PAIR(QM, w::RigidTransformQd, w::RigidTransformMd)
PAIR(QQ, w::RigidTransformQd, w::RigidTransformQd)
extern "C" void G_one_Q() { one<w::RigidTransformQd>(); }
#else
extern "C" void G_rtmp_M() { rot_of_temporary<w::RigidTransformMd>(); }
extern "C" void G_rtmp_Q() { rot_of_temporary<w::RigidTransformQd>(); }
#endif
