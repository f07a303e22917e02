// Exponential and logarithmic maps, composed with everything else (generic position).
#include "leaves.hpp"

static V3 rv(const RotIn &A) { return A.phi; }
static M3 rodrigues(const V3 &p) {
    double th = std::sqrt(p.dot(p));
    M3 K = hat(p) / th;
    return M3::Identity() + std::sin(th) * K + (1 - std::cos(th)) * (K * K);
}
static M3 leftJ(const V3 &p) {
    double th = std::sqrt(p.dot(p));
    M3 K = hat(p) / th;
    return M3::Identity() + (1 - std::cos(th)) / th * K + (th - std::sin(th)) / th * (K * K);
}

#if PART == 1
extern "C" void G_exp_rot() {
    WideIn P(0), S(3);
    VecIn t(6);
    w::RelativeRotationd a{P.v}, b{S.v};
    w::Translationd p{t.v};
    M3 EA = rodrigues(P.v), EB = rodrigues(S.v);
    {
        auto [v, j1] = exp(a).evalWithJacobians(a);
        eqm(R(v), EA, "exp(a)");
        jacR(R(v), j1, 0, "d(exp(a))/da");
    }
    {
        auto [v, j1, j2] = (exp(a) * exp(b)).evalWithJacobians(a, b);
        eqm(R(v), EA * EB, "exp(a)*exp(b)");
        jacR(R(v), j1, 0, "d(exp(a)*exp(b))/da");
        jacR(R(v), j2, 3, "d(exp(a)*exp(b))/db");
    }
    {
        auto [v, j1, j2] = (exp(a) * p).evalWithJacobians(a, p);
        eqm(v.value(), EA * t.v, "exp(a)*p");
        jacV(v.value(), j1, 0, "d(exp(a)*p)/da");
        jacV(v.value(), j2, 6, "d(exp(a)*p)/dp");
    }
    {
        auto [v, j1] = exp(-a).evalWithJacobians(a);
        eqm(R(v), EA.transpose(), "exp(-a)");
        jacR(R(v), j1, 0, "d(exp(-a))/da");
    }
    eqm(R(eval(exp(a) * exp(-a))), M3::Identity(), "exp(a)*exp(-a)");
    eqm(R(eval(exp(a + a))), EA * EA, "exp(a+a)");
}
// exp(log(r)) == r, for rotation angles in (0, pi) only: RotIn yields those
template <class L>
static void logrot() {
    RotIn A(0);
    L a = mk<L>(A);
    {
        auto [v, j1] = log(a).evalWithJacobians(a);
        eqm(v.value(), rv(A), "log(a)");
        jacV(v.value(), j1, 0, "d(log(a))/da");
    }
    {
        auto [v, j1] = exp(log(a)).evalWithJacobians(a);
        eqm(R(v), A.R, "exp(log(a))");
        jacR(R(v), j1, 0, "d(exp(log(a)))/da");
    }
    {
        auto [v, j1] = log(inverse(a)).evalWithJacobians(a);
        eqm(v.value(), -rv(A), "log(inverse(a))");
        jacV(v.value(), j1, 0, "d(log(inverse(a)))/da");
    }
    {
        auto [v, j1] = (2.0 * log(a)).evalWithJacobians(a);
        eqm(v.value(), 2 * rv(A), "2*log(a)");
        jacV(v.value(), j1, 0, "d(2*log(a))/da");
    }
    {
        auto [v, j1] = log(a).norm().evalWithJacobians(a);
        eqs(v.value(), A.th, "log(a).norm()");
        jacV(mat(v.value()), j1, 0, "d(log(a).norm())/da");
    }
}
extern "C" void G_log_M() { logrot<w::RotationMd>(); }
extern "C" void G_log_Q() { logrot<w::RotationQd>(); }
extern "C" void G_log_A() { logrot<w::RotationAd>(); }
extern "C" void G_logexp_rot() {
    PhiIn P(0);
    w::RelativeRotationd a{P.v};
    auto [v, j1] = log(exp(a)).evalWithJacobians(a);
    eqm(v.value(), P.v, "log(exp(a))");
    jacV(v.value(), j1, 0, "d(log(exp(a)))/da");
}
template <class A_, class B_>
static void logpair() {
    RotIn A(0), B(3);
    A_ a = mk<A_>(A);
    B_ b = mk<B_>(B);
    auto [v, j1, j2] = log(a * b).evalWithJacobians(a, b);
    jacV(v.value(), j1, 0, "d(log(a*b))/da");
    jacV(v.value(), j2, 3, "d(log(a*b))/db");
    eqm(R(eval(exp(v))), A.R * B.R, "exp(log(a*b))");
}
extern "C" void G_logpair_MM() { logpair<w::RotationMd, w::RotationMd>(); }
extern "C" void G_logpair_QQ() { logpair<w::RotationQd, w::RotationQd>(); }
extern "C" void G_logpair_AM() { logpair<w::RotationAd, w::RotationMd>(); }
extern "C" void G_logpair_QM() { logpair<w::RotationQd, w::RotationMd>(); }
extern "C" void G_angleaxis() {
    // FromAngleAndAxis(angle, axis): the axis need not be normalised
    double ang;
    V3 ax;
    wg_real(&ang, 1, -1);
    wg_real(ax.data(), 3, -1);
    w::RelativeRotationd a = w::RelativeRotationd::FromAngleAndAxis(ang, ax);
    eqm(a.value(), ang * ax / ax.norm(), "FromAngleAndAxis");
    w::RelativeRotationd b;
    b.setFromAngleAndAxis(ang, ax);
    eqm(b.value(), ang * ax / ax.norm(), "setFromAngleAndAxis");
}
extern "C" void G_framed_rot() {
    RotIn A(0);
    WideIn P(3);
    auto a = mk<w::RotationQFd<FA, FB>>(A);
    w::RelativeRotationFd<FA, FA, FB> r{P.v};
    w::RotationMFd<FA, FA> m{exp(r)};
    eqm(R(m), rodrigues(P.v), "framed exp(r)");
    w::RelativeRotationFd<FA, FA, FB> l{log(a)};
    eqm(l.value(), rv(A), "framed log(a)");
    auto [v, j1, j2] = (exp(r) * a).evalWithJacobians(r, a);
    eqm(R(v), rodrigues(P.v) * A.R, "framed exp(r)*a");
    jacR(R(v), j1, 3, "framed d(exp(r)*a)/dr");
    jacR(R(v), j2, 0, "framed d(exp(r)*a)/da");
}
#elif PART == 2
struct TwIn {
    V6 v;
    explicit TwIn(int d, bool wide = true) {
        double a[3], b[3];
        if (wide) wg_vec3w(a, d);
        else wg_vec3(a, d);
        wg_real(b, 3, d < 0 ? -1 : d + 3);
        v << a[0], a[1], a[2], b[0], b[1], b[2];
    }
};
extern "C" void G_exp_se3() {
    TwIn X(0);
    VecIn t(6);
    w::Twistd x{X.v};
    w::Translationd p{t.v};
    M3 Rx = rodrigues(X.v.head<3>());
    V3 tx = leftJ(X.v.head<3>()) * X.v.tail<3>();
    {
        auto [v, j1] = exp(x).evalWithJacobians(x);
        eqm(T(v), se(Rx, tx), "exp(x)");
        jacT(T(v), j1, 0, "d(exp(x))/dx");
    }
    {
        auto [v, j1, j2] = (exp(x) * p).evalWithJacobians(x, p);
        eqm(v.value(), Rx * t.v + tx, "exp(x)*p");
        jacV(v.value(), j1, 0, "d(exp(x)*p)/dx");
        jacV(v.value(), j2, 6, "d(exp(x)*p)/dp");
    }
    {
        auto [v, j1] = exp(-x).evalWithJacobians(x);
        eqm(T(v), seinv(se(Rx, tx)), "exp(-x)");
        jacT(T(v), j1, 0, "d(exp(-x))/dx");
    }
    eqm(T(eval(exp(x) * exp(x))), T(eval(exp(x + x))), "exp(x)*exp(x) = exp(x+x)");
}
template <class L>
static void logse() {
    SeIn A(0);
    L a = mk<L>(A);
    V3 w_ = A.phi;
    {
        auto [v, j1] = log(a).evalWithJacobians(a);
        eqm(V3(v.value().template head<3>()), w_, "log(a) rotation part");
        eqm(A.t, V3(leftJ(w_) * v.value().template tail<3>()), "log(a) translation part");
        jacV(v.value(), j1, 0, "d(log(a))/da");
    }
    {
        auto [v, j1] = exp(log(a)).evalWithJacobians(a);
        eqm(T(v), A.T, "exp(log(a))");
        jacT(T(v), j1, 0, "d(exp(log(a)))/da");
    }
}
extern "C" void G_log_SM() { logse<w::RigidTransformMd>(); }
extern "C" void G_log_SQ() { logse<w::RigidTransformQd>(); }
extern "C" void G_logexp_se3() {
    TwIn X(0, false);
    w::Twistd x{X.v};
    auto [v, j1] = log(exp(x)).evalWithJacobians(x);
    eqm(v.value(), X.v, "log(exp(x))");
    jacV(v.value(), j1, 0, "d(log(exp(x)))/dx");
}
template <class A_, class B_>
static void logpair() {
    SeIn A(0), B(6);
    A_ a = mk<A_>(A);
    B_ b = mk<B_>(B);
    auto [v, j1, j2] = log(a * b).evalWithJacobians(a, b);
    jacV(v.value(), j1, 0, "d(log(a*b))/da");
    jacV(v.value(), j2, 6, "d(log(a*b))/db");
    eqm(T(eval(exp(v))), A.T * B.T, "exp(log(a*b))");
}
extern "C" void G_logpair_SMM() { logpair<w::RigidTransformMd, w::RigidTransformMd>(); }
extern "C" void G_logpair_SQQ() { logpair<w::RigidTransformQd, w::RigidTransformQd>(); }
extern "C" void G_logpair_SQM() { logpair<w::RigidTransformQd, w::RigidTransformMd>(); }
extern "C" void G_twist_parts() {
    V3 a, b;
    wg_real(a.data(), 3, -1);
    wg_real(b.data(), 3, -1);
    w::Twistd x{a, b};
    eqm(V3(x.value().head<3>()), a, "Twist{r,t} rotation first");
    eqm(V3(x.value().tail<3>()), b, "Twist{r,t} translation last");
    eqm(x.rotation().value(), a, "Twist::rotation()");
    eqm(x.translation().value(), b, "Twist::translation()");
    const w::Twistd y{x.value()};
    eqm(y.rotation().value(), a, "const Twist::rotation()");
    eqm(y.translation().value(), b, "const Twist::translation()");
    x.rotation().value() = b;
    x.translation().value() = a;
    eqm(V3(x.value().head<3>()), b, "Twist::rotation() is a reference");
    eqm(V3(x.value().tail<3>()), a, "Twist::translation() is a reference");
}
extern "C" void G_framed_se3() {
    SeIn A(0);
    TwIn X(6);
    auto a = mk<w::RigidTransformQFd<FA, FB>>(A);
    w::TwistFd<FA, FA, FB> x{X.v};
    auto [v, j1, j2] = (exp(x) * a).evalWithJacobians(x, a);
    eqm(T(v), se(rodrigues(X.v.head<3>()), leftJ(X.v.head<3>()) * X.v.tail<3>()) * A.T, "framed exp(x)*a");
    jacT(T(v), j1, 6, "framed d(exp(x)*a)/dx");
    jacT(T(v), j2, 0, "framed d(exp(x)*a)/da");
    w::TwistFd<FA, FA, FB> l{log(a)};
    eqm(T(eval(exp(l))), A.T, "framed exp(log(a))");
}
#else
// manifold difference and increment
template <class A_, class B_>
static void boxrot() {
    RotIn A(0), B(3);
    A_ a = mk<A_>(A);
    B_ b = mk<B_>(B);
    auto [v, j1, j2] = (a - b).evalWithJacobians(a, b);
    eqm(R(eval(exp(v))), A.R * B.R.transpose(), "exp(a-b)");
    jacV(v.value(), j1, 0, "d(a-b)/da");
    jacV(v.value(), j2, 3, "d(a-b)/db");
    auto u = eval(b + (a - b));
    eqm(R(u), A.R, "b+(a-b)");
}
template <class A_>
static void boxrot1() {
    RotIn A(0);
    PhiIn P(3);
    A_ a = mk<A_>(A);
    w::RelativeRotationd r{P.v};
    {
        auto [v, j1, j2] = (a + r).evalWithJacobians(a, r);
        eqm(R(v), rodrigues(P.v) * A.R, "a+r");
        jacR(R(v), j1, 0, "d(a+r)/da");
        jacR(R(v), j2, 3, "d(a+r)/dr");
    }
    auto d = eval((a + r) - a);
    eqm(d.value(), P.v, "(a+r)-a");
    {
        auto [v, j1] = (a + log(a)).evalWithJacobians(a);
        eqm(R(v), A.R * A.R, "a+log(a)");
        jacR(R(v), j1, 0, "d(a+log(a))/da");
    }
}
template <class A_, class B_>
static void boxse() {
    SeIn A(0), B(6);
    A_ a = mk<A_>(A);
    B_ b = mk<B_>(B);
    auto [v, j1, j2] = (a - b).evalWithJacobians(a, b);
    eqm(T(eval(exp(v))), A.T * seinv(B.T), "exp(a-b)");
    jacV(v.value(), j1, 0, "d(a-b)/da");
    jacV(v.value(), j2, 6, "d(a-b)/db");
    eqm(T(eval(b + (a - b))), A.T, "b+(a-b)");
}
template <class A_>
static void boxse1() {
    SeIn A(0);
    V3 f, g;
    wg_vec3(f.data(), 6);
    wg_real(g.data(), 3, 9);
    A_ a = mk<A_>(A);
    w::Twistd x{f, g};
    {
        auto [v, j1, j2] = (a + x).evalWithJacobians(a, x);
        eqm(T(v), se(rodrigues(f), leftJ(f) * g) * A.T, "a+x");
        jacT(T(v), j1, 0, "d(a+x)/da");
        jacT(T(v), j2, 6, "d(a+x)/dx");
    }
    auto d = eval((a + x) - a);
    eqm(d.value(), x.value(), "(a+x)-a");
}
#define BR(n, A, B) extern "C" void G_box_##n() { boxrot<A, B>(); }
BR(MM, w::RotationMd, w::RotationMd)
BR(QQ, w::RotationQd, w::RotationQd)
BR(AA, w::RotationAd, w::RotationAd)
BR(QM, w::RotationQd, w::RotationMd)
BR(MQ, w::RotationMd, w::RotationQd)
BR(MA, w::RotationMd, w::RotationAd)
extern "C" void G_plus_M() { boxrot1<w::RotationMd>(); }
extern "C" void G_plus_Q() { boxrot1<w::RotationQd>(); }
extern "C" void G_plus_A() { boxrot1<w::RotationAd>(); }
extern "C" void G_box_SMM() { boxse<w::RigidTransformMd, w::RigidTransformMd>(); }
extern "C" void G_box_SQQ() { boxse<w::RigidTransformQd, w::RigidTransformQd>(); }
extern "C" void G_box_SQM() { boxse<w::RigidTransformQd, w::RigidTransformMd>(); }
extern "C" void G_plus_SM() { boxse1<w::RigidTransformMd>(); }
extern "C" void G_plus_SQ() { boxse1<w::RigidTransformQd>(); }
extern "C" void G_box_framed() {
    RotIn A(0), B(3);
    auto a = mk<w::RotationMFd<FA, FB>>(A);
    auto b = mk<w::RotationQFd<FA, FB>>(B);
    auto [v, j1, j2] = (a - b).evalWithJacobians(a, b);
    eqm(R(eval(exp(v))), A.R * B.R.transpose(), "framed exp(a-b)");
    jacV(v.value(), j1, 0, "framed d(a-b)/da");
    jacV(v.value(), j2, 3, "framed d(a-b)/db");
    eqm(R(eval(b + (a - b))), A.R, "framed b+(a-b)");
}
#endif
