// Degenerate configurations: rotation angle zero, near zero, near pi.
#include "leaves.hpp"
struct ZIn {
    M3 R;
    Q4 q;
    double aa[4];
    V3 p;
    explicit ZIn(int nearpi) { wg_rotz(R.data(), q.coeffs().data(), aa, p.data(), nearpi); }
    operator RotIn() const {
        RotIn r;
        r.R = R;
        r.q = q;
        for (int i = 0; i < 4; ++i) r.aa[i] = aa[i];
        r.phi = p;
        return r;
    }
};
template <class L>
static L lf(const ZIn &z) { return Mk<L>::rot(z.R, z.q, z.aa); }
template <class L>
static L lt(const ZIn &z, const V3 &t) {
    if constexpr (std::is_same_v<L, w::RigidTransformMd>) return L{se(z.R, t)};
    else return L{z.q, t};
}
// one neighbourhood obligation for the value and one for each Jacobian of an expression
#define NEAR1(e, x, VAL)                          \
    {                                             \
        auto [v, j1] = (e).evalWithJacobians(x);  \
        nearm(VAL(v), #e);                        \
        nearm(j1, "d/d" #x " " #e);               \
    }
template <class X> static auto vv(const X &x) { return mat(x.value()); }
#define NEAR2(e, x, y, VAL)                         \
    {                                               \
        auto [v, j1, j2] = (e).evalWithJacobians(x, y); \
        nearm(VAL(v), #e);                          \
        nearm(j1, "d/d" #x " " #e);                 \
        nearm(j2, "d/d" #y " " #e);                 \
    }
#if PART == 1
extern "C" void Z_exp_rot() {
    ZIn z(0);
    w::RelativeRotationd r{z.p};
    NEAR1(exp(r), r, R)
}
extern "C" void Z_exp_se3() {
    ZIn z(0);
    VecIn t;
    w::Twistd x{z.p, t.v};
    NEAR1(exp(x), x, T)
}
template <class L> static void zlog() {
    ZIn z(0);
    L a = lf<L>(z);
    NEAR1(log(a), a, vv)
}
extern "C" void Z_log_M() { zlog<w::RotationMd>(); }
extern "C" void Z_log_Q() { zlog<w::RotationQd>(); }
extern "C" void Z_log_A() { zlog<w::RotationAd>(); }
template <class L> static void zlogt() {
    ZIn z(0);
    VecIn t;
    L a = lt<L>(z, t.v);
    NEAR1(log(a), a, vv)
}
extern "C" void Z_log_SM() { zlogt<w::RigidTransformMd>(); }
extern "C" void Z_log_SQ() { zlogt<w::RigidTransformQd>(); }
template <class L> static void zplus() {
    ZIn z(0);
    RotIn A;
    L a = mk<L>(A);
    w::RelativeRotationd r{z.p};
    NEAR2(a + r, a, r, R)
}
extern "C" void Z_plus_M() { zplus<w::RotationMd>(); }
extern "C" void Z_plus_Q() { zplus<w::RotationQd>(); }
extern "C" void Z_plus_SM() {
    ZIn z(0);
    VecIn t;
    SeIn A;
    auto a = mk<w::RigidTransformMd>(A);
    w::Twistd x{z.p, t.v};
    NEAR2(a + x, a, x, T)
}
#elif PART == 2
// exactly at the identity: finite, and the limit values
extern "C" void G_zero_exp_rot() {
    w::RelativeRotationd r{0.0, 0.0, 0.0};
    auto [v, j1] = exp(r).evalWithJacobians(r);
    eqm(R(v), M3::Identity(), "exp(0)");
    eqm(j1, M3::Identity(), "d(exp(r))/dr at 0");
}
extern "C" void G_zero_exp_se3() {
    VecIn t;
    w::Twistd x{V3(0, 0, 0), t.v};
    auto [v, j1] = exp(x).evalWithJacobians(x);
    eqm(T(v), se(M3::Identity(), t.v), "exp((0,t))");
    finm(j1, "d(exp(x))/dx at (0,t) is finite");
    M6 J = M6::Identity();
    J.bottomLeftCorner<3, 3>() = 0.5 * hat(t.v);
    eqm(j1, J, "d(exp(x))/dx at (0,t)");
}
template <class L> static void zero_log() {
    RotIn I;
    wg_rot0(I.R.data(), I.q.coeffs().data(), I.aa, -1);
    L a = mk<L>(I);
    auto [v, j1] = log(a).evalWithJacobians(a);
    eqm(v.value(), V3(0, 0, 0), "log(identity)");
    finm(j1, "d(log(a))/da at identity is finite");
    eqm(j1, M3::Identity(), "d(log(a))/da at identity");
}
extern "C" void G_zero_log_M() { zero_log<w::RotationMd>(); }
extern "C" void G_zero_log_Q() { zero_log<w::RotationQd>(); }
extern "C" void G_zero_log_A() { zero_log<w::RotationAd>(); }
template <class L> static void zero_logt() {
    VecIn t;
    L a{Q4(1.0, 0.0, 0.0, 0.0), t.v};
    auto [v, j1] = log(a).evalWithJacobians(a);
    V6 ex;
    ex << 0, 0, 0, t.v(0), t.v(1), t.v(2);
    eqm(v.value(), ex, "log((I,t))");
    finm(j1, "d(log(a))/da at (I,t) is finite");
    M6 J = M6::Identity();
    J.bottomLeftCorner<3, 3>() = -0.5 * hat(t.v);
    eqm(j1, J, "d(log(a))/da at (I,t)");
}
extern "C" void G_zero_log_SM() { zero_logt<w::RigidTransformMd>(); }
extern "C" void G_zero_log_SQ() { zero_logt<w::RigidTransformQd>(); }
template <class L> static void zero_minus() {
    RotIn A;
    L a = mk<L>(A);
    auto [v, j1] = (a - a).evalWithJacobians(a);
    eqm(v.value(), V3(0, 0, 0), "a-a");
    eqm(j1, M3::Zero(), "d(a-a)/da");
    L b = a;
    auto [u, k1, k2] = (a - b).evalWithJacobians(a, b);
    eqm(u.value(), V3(0, 0, 0), "a-b, a=b");
    eqm(k1, M3::Identity(), "d(a-b)/da, a=b");
    eqm(k2, -M3::Identity(), "d(a-b)/db, a=b");
}
extern "C" void G_zero_minus_M() { zero_minus<w::RotationMd>(); }
extern "C" void G_zero_minus_Q() { zero_minus<w::RotationQd>(); }
template <class L> static void zero_minust() {
    SeIn A;
    L a = mk<L>(A), b = a;
    auto [u, k1, k2] = (a - b).evalWithJacobians(a, b);
    eqm(u.value(), V6::Zero(), "a-b, a=b");
    finm(k1, "d(a-b)/da, a=b is finite");
    finm(k2, "d(a-b)/db, a=b is finite");
    eqm(k1, M6::Identity(), "d(a-b)/da, a=b");
    eqm(k2, -M6::Identity(), "d(a-b)/db, a=b");
}
extern "C" void G_zero_minus_SM() { zero_minust<w::RigidTransformMd>(); }
extern "C" void G_zero_minus_SQ() { zero_minust<w::RigidTransformQd>(); }
template <class L> static void zero_plus() {
    RotIn A;
    L a = mk<L>(A);
    w::RelativeRotationd r{0.0, 0.0, 0.0};
    auto [v, j1, j2] = (a + r).evalWithJacobians(a, r);
    eqm(R(v), A.R, "a+0");
    eqm(j1, M3::Identity(), "d(a+r)/da at r=0");
    eqm(j2, M3::Identity(), "d(a+r)/dr at r=0");
}
extern "C" void G_zero_plus_M() { zero_plus<w::RotationMd>(); }
extern "C" void G_zero_plus_Q() { zero_plus<w::RotationQd>(); }
template <class L> static void zero_plust() {
    SeIn A;
    L a = mk<L>(A);
    w::Twistd x{V3(0, 0, 0), V3(0, 0, 0)};
    auto [v, j1, j2] = (a + x).evalWithJacobians(a, x);
    eqm(T(v), A.T, "a+0");
    eqm(j1, M6::Identity(), "d(a+x)/da at x=0");
    eqm(j2, M6::Identity(), "d(a+x)/dx at x=0");
}
extern "C" void G_zero_plus_SM() { zero_plust<w::RigidTransformMd>(); }
extern "C" void G_zero_plus_SQ() { zero_plust<w::RigidTransformQd>(); }
#else
// half turn
template <class L> static void zpi() {
    ZIn z(1);
    L a = lf<L>(z);
    NEAR1(log(a), a, vv)
}
extern "C" void Z_pi_log_M() { zpi<w::RotationMd>(); }
extern "C" void Z_pi_log_Q() { zpi<w::RotationQd>(); }
extern "C" void Z_pi_log_A() { zpi<w::RotationAd>(); }
template <class L> static void zpit() {
    ZIn z(1);
    VecIn t;
    L a = lt<L>(z, t.v);
    NEAR1(log(a), a, vv)
}
extern "C" void Z_pi_log_SM() { zpit<w::RigidTransformMd>(); }
extern "C" void Z_pi_log_SQ() { zpit<w::RigidTransformQd>(); }
extern "C" void Z_pi_exp() {
    ZIn z(1);
    w::RelativeRotationd r{z.p};
    NEAR1(exp(r), r, R)
}
template <class L> static void gpi() {
    RotIn I;
    wg_rotpi(I.R.data(), I.q.coeffs().data(), I.aa);
    L a = mk<L>(I);
    auto [v, j1] = log(a).evalWithJacobians(a);
    finm(v.value(), "log(half turn) is finite");
    eqm(R(eval(exp(v))), I.R, "exp(log(half turn))");
    finm(j1, "d(log(a))/da at a half turn is finite");
}
extern "C" void G_pi_log_M() { gpi<w::RotationMd>(); }
extern "C" void G_pi_log_Q() { gpi<w::RotationQd>(); }
extern "C" void G_pi_log_A() { gpi<w::RotationAd>(); }
template <class L> static void pimul() {
    RotIn I, B(0);
    wg_rotpi(I.R.data(), I.q.coeffs().data(), I.aa);
    L a = mk<L>(I), b = mk<L>(B);
    VecIn t;
    w::Translationd p{t.v};
    eqm(R(eval(a * b)), I.R * B.R, "half turn * b");
    eqm(R(eval(inverse(a))), I.R.transpose(), "inverse(half turn)");
    eqm(eval(a * p).value(), I.R * t.v, "half turn * p");
}
extern "C" void G_pi_mul_M() { pimul<w::RotationMd>(); }
extern "C" void G_pi_mul_Q() { pimul<w::RotationQd>(); }
extern "C" void G_pi_mul_A() { pimul<w::RotationAd>(); }
#endif
