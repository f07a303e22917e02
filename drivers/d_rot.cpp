// Rotations: every pair of representations, every operator.
#include "leaves.hpp"

template <class A_, class B_>
static void pair() {
    RotIn A(0), B(3);
    VecIn t(6);
    A_ a = mk<A_>(A);
    B_ b = mk<B_>(B);
    w::Translationd p{t.v};
    {
        auto [v, j1, j2] = (a * b).evalWithJacobians(a, b);
        eqm(R(v), A.R * B.R, "a*b");
        jacR(R(v), j1, 0, "d(a*b)/da");
        jacR(R(v), j2, 3, "d(a*b)/db");
    }
    {
        auto [v, j1, j2] = (inverse(a) * b).evalWithJacobians(a, b);
        eqm(R(v), A.R.transpose() * B.R, "inverse(a)*b");
        jacR(R(v), j1, 0, "d(inverse(a)*b)/da");
        jacR(R(v), j2, 3, "d(inverse(a)*b)/db");
    }
    {
        auto [v, j1, j2] = inverse(a * b).evalWithJacobians(a, b);
        eqm(R(v), B.R.transpose() * A.R.transpose(), "inverse(a*b)");
        jacR(R(v), j1, 0, "d(inverse(a*b))/da");
        jacR(R(v), j2, 3, "d(inverse(a*b))/db");
    }
    {
        auto [v, j1, j2, j3] = (a * b * p).evalWithJacobians(a, b, p);
        eqm(v.value(), A.R * B.R * t.v, "a*b*p");
        jacV(v.value(), j1, 0, "d(a*b*p)/da");
        jacV(v.value(), j2, 3, "d(a*b*p)/db");
        jacV(v.value(), j3, 6, "d(a*b*p)/dp");
    }
    {
        auto [v, j1, j2, j3] = (inverse(a) * (b * p)).evalWithJacobians(a, b, p);
        eqm(v.value(), A.R.transpose() * (B.R * t.v), "inverse(a)*(b*p)");
        jacV(v.value(), j1, 0, "d(inverse(a)*(b*p))/da");
        jacV(v.value(), j2, 3, "d(inverse(a)*(b*p))/db");
        jacV(v.value(), j3, 6, "d(inverse(a)*(b*p))/dp");
    }
    // a shared operand contributes once per occurrence
    {
        auto [v, j1, j2] = (a * b * a).evalWithJacobians(a, b);
        eqm(R(v), A.R * B.R * A.R, "a*b*a");
        jacR(R(v), j1, 0, "d(a*b*a)/da");
        jacR(R(v), j2, 3, "d(a*b*a)/db");
    }
}

// group laws, as seen through the library's own operators
template <class A_, class B_>
static void laws() {
    RotIn A, B;
    A_ a = mk<A_>(A);
    B_ b = mk<B_>(B);
    eqm(R(eval(a * inverse(a))), M3::Identity(), "a*inverse(a)");
    eqm(R(eval(inverse(a) * a)), M3::Identity(), "inverse(a)*a");
    eqm(R(eval(inverse(inverse(a)))), A.R, "inverse(inverse(a))");
    eqm(R(eval((a * b) * a)), R(eval(a * (b * a))), "associativity");
    eqm(R(eval(inverse(a * b))), R(eval(inverse(b) * inverse(a))), "inverse of a product");
}
// results in a chosen representation
template <class A_, class B_>
static void toM() {
    RotIn A, B;
    A_ a = mk<A_>(A);
    B_ b = mk<B_>(B);
    eqm(R(w::RotationMd{a * b}), A.R * B.R, "RotationMd{a*b}");
    w::RotationMd m;
    m = a * b;
    eqm(R(m), A.R * B.R, "RotationMd = a*b");
}
template <class A_, class B_>
static void toQ() {
    RotIn A, B;
    A_ a = mk<A_>(A);
    B_ b = mk<B_>(B);
    eqm(R(w::RotationQd{a * b}), A.R * B.R, "RotationQd{a*b}");
}
template <class A_, class B_>
static void assignQ() {
    RotIn A, B;
    A_ a = mk<A_>(A);
    B_ b = mk<B_>(B);
    w::RotationQd q;
    q = inverse(a) * b;
    eqm(R(q), A.R.transpose() * B.R, "RotationQd = inverse(a)*b");
}

template <class A_, class B_>
static void framed() {
    RotIn A(0), B(3);
    VecIn t(6);
    auto a = mk<w::Framed<A_, FA, FB>>(A);
    auto b = mk<w::Framed<B_, FB, FC>>(B);
    w::TranslationFd<FC, FC, FD> p{t.v};
    {
        auto [v, j1, j2] = (a * b).evalWithJacobians(a, b);
        eqm(R(v), A.R * B.R, "a*b");
        jacR(R(v), j1, 0, "d(a*b)/da");
        jacR(R(v), j2, 3, "d(a*b)/db");
    }
    {
        auto [v, j1, j2] = inverse(a * b).evalWithJacobians(a, b);
        eqm(R(v), B.R.transpose() * A.R.transpose(), "inverse(a*b)");
        jacR(R(v), j1, 0, "d(inverse(a*b))/da");
        jacR(R(v), j2, 3, "d(inverse(a*b))/db");
    }
    {
        auto [v, j1, j2, j3] = (a * b * p).evalWithJacobians(a, b, p);
        eqm(v.value(), A.R * B.R * t.v, "a*b*p");
        jacV(v.value(), j1, 0, "d(a*b*p)/da");
        jacV(v.value(), j2, 3, "d(a*b*p)/db");
        jacV(v.value(), j3, 6, "d(a*b*p)/dp");
    }
    w::RotationMFd<FA, FC> m{a * b};
    eqm(R(m), A.R * B.R, "framed RotationM{a*b}");
    m = a * b;
    eqm(R(m), A.R * B.R, "framed RotationM = a*b");
    w::RotationQFd<FC, FA> q{inverse(a * b)};
    eqm(R(q), B.R.transpose() * A.R.transpose(), "framed RotationQ{inverse(a*b)}");
}

template <class A_>
static void one() {
    RotIn A(0);
    VecIn t(3);
    A_ a = mk<A_>(A);
    w::Translationd p{t.v};
    {
        auto [v, j1] = inverse(a).evalWithJacobians(a);
        eqm(R(v), A.R.transpose(), "inverse(a)");
        jacR(R(v), j1, 0, "d(inverse(a))/da");
    }
    {
        auto [v, j1, j2] = (a * p).evalWithJacobians(a, p);
        eqm(v.value(), A.R * t.v, "a*p");
        jacV(v.value(), j1, 0, "d(a*p)/da");
        jacV(v.value(), j2, 3, "d(a*p)/dp");
    }
    {
        auto [v, j1, j2] = (inverse(a) * p).evalWithJacobians(a, p);
        eqm(v.value(), A.R.transpose() * t.v, "inverse(a)*p");
        jacV(v.value(), j1, 0, "d(inverse(a)*p)/da");
        jacV(v.value(), j2, 3, "d(inverse(a)*p)/dp");
    }
    {
        auto [v, j1] = (a * a).evalWithJacobians(a);
        eqm(R(v), A.R * A.R, "a*a");
        jacR(R(v), j1, 0, "d(a*a)/da");
    }
    {
        auto [v, j1] = (inverse(a) * inverse(a)).evalWithJacobians(a);
        eqm(R(v), A.R.transpose() * A.R.transpose(), "inverse(a)*inverse(a)");
        jacR(R(v), j1, 0, "d(inverse(a)*inverse(a))/da");
    }
    {
        auto [v, j1, j2] = (a * (a * p + p)).evalWithJacobians(a, p);
        eqm(v.value(), A.R * (A.R * t.v + t.v), "a*(a*p+p)");
        jacV(v.value(), j1, 0, "d(a*(a*p+p))/da");
        jacV(v.value(), j2, 3, "d(a*(a*p+p))/dp");
    }
    // rotation() of a rotation is itself
    eqm(R(w::RotationMd{a.rotation()}), A.R, "a.rotation()");
    // eval of a leaf is the leaf
    eqm(R(eval(a)), A.R, "eval(a)");
    {
        auto [v, j1] = (a * inverse(a) * a).evalWithJacobians(a);
        eqm(R(v), A.R, "a*inverse(a)*a");
        jacR(R(v), j1, 0, "d(a*inverse(a)*a)/da");
    }
}

#define PAIR(n, A, B)                                \
    extern "C" void G_pair_##n() { pair<A, B>(); }   \
    extern "C" void G_laws_##n() { laws<A, B>(); }   \
    extern "C" void G_toM_##n() { toM<A, B>(); }     \
    extern "C" void G_toQ_##n() { toQ<A, B>(); }     \
    extern "C" void G_assignQ_##n() { assignQ<A, B>(); } \
    extern "C" void G_framed_##n() { framed<A, B>(); }
#if PART == 1
PAIR(MM, w::RotationMd, w::RotationMd)
PAIR(MQ, w::RotationMd, w::RotationQd)
PAIR(QM, w::RotationQd, w::RotationMd)
extern "C" void G_one_M() { one<w::RotationMd>(); }
#elif PART == 2
PAIR(QQ, w::RotationQd, w::RotationQd)
PAIR(AM, w::RotationAd, w::RotationMd)
PAIR(MA, w::RotationMd, w::RotationAd)
extern "C" void G_one_Q() { one<w::RotationQd>(); }
#else
PAIR(AA, w::RotationAd, w::RotationAd)
PAIR(AQ, w::RotationAd, w::RotationQd)
PAIR(QA, w::RotationQd, w::RotationAd)
extern "C" void G_one_A() { one<w::RotationAd>(); }
#endif
