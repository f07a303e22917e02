// Vectors, points and scalars: sums, differences, products, norms.
#include "leaves.hpp"

// L: a vector leaf of size N
template <class L, int N>
struct In {
    Eigen::Matrix<double, N, 1> v;
    explicit In(int d = -1) { wg_real(v.data(), N, d); }
};

template <class L, int N>
static void vec() {
    In<L, N> A(0), B(N), C(2 * N);
    using M = Eigen::Matrix<double, N, N>;
    L a{A.v}, b{B.v}, c{C.v};
    {
        auto [v, j1, j2] = (a + b).evalWithJacobians(a, b);
        eqm(v.value(), A.v + B.v, "a+b");
        jacV(v.value(), j1, 0, "d(a+b)/da");
        jacV(v.value(), j2, N, "d(a+b)/db");
    }
    {
        auto [v, j1, j2] = (a - b).evalWithJacobians(a, b);
        eqm(v.value(), A.v - B.v, "a-b");
        jacV(v.value(), j1, 0, "d(a-b)/da");
        jacV(v.value(), j2, N, "d(a-b)/db");
    }
    {
        auto [v, j1] = (-a).evalWithJacobians(a);
        eqm(v.value(), -A.v, "-a");
        jacV(v.value(), j1, 0, "d(-a)/da");
    }
    {
        auto [v, j1, j2, j3] = (a - (b + c) + a).evalWithJacobians(a, b, c);
        eqm(v.value(), 2 * A.v - B.v - C.v, "a-(b+c)+a");
        jacV(v.value(), j1, 0, "d(a-(b+c)+a)/da");
        jacV(v.value(), j2, N, "d(a-(b+c)+a)/db");
        jacV(v.value(), j3, 2 * N, "d(a-(b+c)+a)/dc");
    }
    {
        auto [v, j1, j2] = dot(a, b).evalWithJacobians(a, b);
        eqs(v.value(), A.v.dot(B.v), "dot(a,b)");
        jacV(mat(v.value()), j1, 0, "d(dot(a,b))/da");
        jacV(mat(v.value()), j2, N, "d(dot(a,b))/db");
    }
    {
        auto [v, j1] = dot(a, a + b).evalWithJacobians(a);
        eqs(v.value(), A.v.dot(A.v + B.v), "dot(a,a+b)");
        jacV(mat(v.value()), j1, 0, "d(dot(a,a+b))/da");
    }
    {
        auto [v, j1] = a.squaredNorm().evalWithJacobians(a);
        eqs(v.value(), A.v.dot(A.v), "a.squaredNorm()");
        jacV(mat(v.value()), j1, 0, "d(a.squaredNorm())/da");
    }
    {
        auto [v, j1] = a.norm().evalWithJacobians(a);
        eqs(v.value(), std::sqrt(A.v.dot(A.v)), "a.norm()");
        jacV(mat(v.value()), j1, 0, "d(a.norm())/da");
    }
    {
        auto [v, j1, j2] = (a - b).norm().evalWithJacobians(a, b);
        eqs(v.value(), (A.v - B.v).norm(), "(a-b).norm()");
        jacV(mat(v.value()), j1, 0, "d((a-b).norm())/da");
        jacV(mat(v.value()), j2, N, "d((a-b).norm())/db");
    }
    {
        L x;
        x = a + b;
        eqm(x.value(), A.v + B.v, "x = a+b");
        L y{a - b};
        eqm(y.value(), A.v - B.v, "x{a-b}");
    }
}
template <class L, int N>
static void norml() {
    In<L, N> A(0), B(N);
    L a{A.v}, b{B.v};
    {
        auto [v, j1] = a.normalized().evalWithJacobians(a);
        eqm(v.value(), A.v / A.v.norm(), "a.normalized()");
        jacV(v.value(), j1, 0, "d(a.normalized())/da");
    }
    {
        auto [v, j1, j2] = (a + b).normalized().evalWithJacobians(a, b);
        eqm(v.value(), (A.v + B.v) / (A.v + B.v).norm(), "(a+b).normalized()");
        jacV(v.value(), j1, 0, "d((a+b).normalized())/da");
        jacV(v.value(), j2, N, "d((a+b).normalized())/db");
    }
}
template <class L, int N>
static void scale() {
    In<L, N> A(0);
    double s, u;
    wg_real(&s, 1, N);
    wg_real(&u, 1, N + 1);
    L a{A.v};
    w::Scalar<double> k{s};
    {
        auto [v, j1, j2] = (k * a).evalWithJacobians(k, a);
        eqm(v.value(), s * A.v, "k*a");
        jacV(v.value(), j1, N, "d(k*a)/dk");
        jacV(v.value(), j2, 0, "d(k*a)/da");
    }
    {
        auto [v, j1, j2] = (a * k).evalWithJacobians(k, a);
        eqm(v.value(), s * A.v, "a*k");
        jacV(v.value(), j1, N, "d(a*k)/dk");
        jacV(v.value(), j2, 0, "d(a*k)/da");
    }
    {
        auto [v, j1, j2] = (a / k).evalWithJacobians(k, a);
        eqm(v.value(), A.v / s, "a/k");
        jacV(v.value(), j1, N, "d(a/k)/dk");
        jacV(v.value(), j2, 0, "d(a/k)/da");
    }
    {
        auto [v, j1, j2] = (a * dot(a, a) / k).evalWithJacobians(k, a);
        eqm(v.value(), A.v * A.v.dot(A.v) / s, "a*dot(a,a)/k");
        jacV(v.value(), j1, N, "d(a*dot(a,a)/k)/dk");
        jacV(v.value(), j2, 0, "d(a*dot(a,a)/k)/da");
    }
    // plain numbers
    {
        auto [v, j1] = (u * a).evalWithJacobians(a);
        eqm(v.value(), u * A.v, "u*a");
        jacV(v.value(), j1, 0, "d(u*a)/da");
    }
    {
        auto [v, j1] = (a * u).evalWithJacobians(a);
        eqm(v.value(), u * A.v, "a*u");
        jacV(v.value(), j1, 0, "d(a*u)/da");
    }
    {
        auto [v, j1] = (a / u).evalWithJacobians(a);
        eqm(v.value(), A.v / u, "a/u");
        jacV(v.value(), j1, 0, "d(a/u)/da");
    }
    {
        auto [v, j1] = ((a + a) * 3.0).evalWithJacobians(a);
        eqm(v.value(), 6 * A.v, "(a+a)*3.0");
        jacV(v.value(), j1, 0, "d((a+a)*3.0)/da");
    }
}
#if PART == 1
extern "C" void G_vec_Translation() { vec<w::Translationd, 3>(); }
extern "C" void G_vec_RelativeRotation() { vec<w::RelativeRotationd, 3>(); }
extern "C" void G_scale_Translation() { scale<w::Translationd, 3>(); }
extern "C" void G_scale_RelativeRotation() { scale<w::RelativeRotationd, 3>(); }
extern "C" void G_norm_Translation() { norml<w::Translationd, 3>(); }
extern "C" void G_norm_RelativeRotation() { norml<w::RelativeRotationd, 3>(); }
#elif PART == 2
extern "C" void G_vec_Twist() { vec<w::Twistd, 6>(); }
extern "C" void G_scale_Twist() { scale<w::Twistd, 6>(); }
extern "C" void G_norm_Twist() { norml<w::Twistd, 6>(); }
#else
extern "C" void G_point() {
    VecIn A(0), B(3), C(6);
    w::Pointd p{A.v}, q{B.v};
    w::Translationd t{C.v};
    {
        auto [v, j1, j2] = (p - q).evalWithJacobians(p, q);
        eqm(v.value(), A.v - B.v, "p-q");
        jacV(v.value(), j1, 0, "d(p-q)/dp");
        jacV(v.value(), j2, 3, "d(p-q)/dq");
    }
    {
        auto [v, j1, j2] = (p + t).evalWithJacobians(p, t);
        eqm(v.value(), A.v + C.v, "p+t");
        jacV(v.value(), j1, 0, "d(p+t)/dp");
        jacV(v.value(), j2, 6, "d(p+t)/dt");
    }
    {
        auto [v, j1, j2] = (t + p).evalWithJacobians(p, t);
        eqm(v.value(), A.v + C.v, "t+p");
        jacV(v.value(), j1, 0, "d(t+p)/dp");
        jacV(v.value(), j2, 6, "d(t+p)/dt");
    }
    {
        auto [v, j1, j2, j3] = (p - q - t).evalWithJacobians(p, q, t);
        eqm(v.value(), A.v - B.v - C.v, "p-q-t");
        jacV(v.value(), j1, 0, "d(p-q-t)/dp");
        jacV(v.value(), j2, 3, "d(p-q-t)/dq");
        jacV(v.value(), j3, 6, "d(p-q-t)/dt");
    }
    {
        w::Pointd x{p + t};
        eqm(x.value(), A.v + C.v, "Point{p+t}");
        x = q + (p - q);
        eqm(x.value(), A.v, "q+(p-q)");
    }
    {
        w::PointFd<FA, FB> fp{A.v}, fq{B.v};
        (void) fq;
        eqm(eval(fp).value(), A.v, "framed point");
    }
}
extern "C" void G_scalar() {
    double s, u, x;
    wg_real(&s, 1, 0);
    wg_real(&u, 1, 1);
    wg_real(&x, 1, 2);
    w::Scalar<double> a{s}, b{u};
#define SC(e, val)                                          \
    {                                                       \
        auto [v, j1, j2] = (e).evalWithJacobians(a, b);     \
        eqs(v.value(), val, #e);                            \
        jacV(mat(v.value()), j1, 0, "d/da " #e);            \
        jacV(mat(v.value()), j2, 1, "d/db " #e);            \
    }
    SC(a + b, s + u)
    SC(a - b, s - u)
    SC(a * b, s * u)
    SC(a / b, s / u)
    SC(a * b - a / b + a, s *u - s / u + s)
    SC(a * a * b * b, s *s *u *u)
    SC(-a - b, -s - u)
    SC(double(2) * a + b * x, 2 * s + u * x)
    SC(x / a - b / x, x / s - u / x)
    SC(x - a + b, x - s + u)
    SC(a - x - b, s - x - u)
    SC(a + double(1) + (x + b), s + 1 + x + u)
    SC(a * (b + a) / (a - b), s *(u + s) / (s - u))
    double n = a;
    eqs(n, s, "double(a)");
    double m = a * b;
    eqs(m, s * u, "double(a*b)");
}
extern "C" void G_acos() {
    VecIn A(0), B(3);
    w::Translationd a{A.v}, b{B.v};
    // the angle between two vectors
    auto e = acos(dot(a, b) / (a.norm() * b.norm()));
    auto [v, j1, j2] = e.evalWithJacobians(a, b);
    eqs(v.value(), std::acos(A.v.dot(B.v) / (A.v.norm() * B.v.norm())), "angle");
    jacV(mat(v.value()), j1, 0, "d(angle)/da");
    jacV(mat(v.value()), j2, 3, "d(angle)/db");
}
extern "C" void G_mixed() {
    RotIn A(0);
    VecIn B(3), C(6);
    w::RotationMd r{A.R};
    w::Translationd p{B.v}, q{C.v};
    {
        auto e = (r * p - q).norm();
        auto [v, j1, j2, j3] = e.evalWithJacobians(r, p, q);
        eqs(v.value(), (A.R * B.v - C.v).norm(), "(r*p-q).norm()");
        jacV(mat(v.value()), j1, 0, "d((r*p-q).norm())/dr");
        jacV(mat(v.value()), j2, 3, "d((r*p-q).norm())/dp");
        jacV(mat(v.value()), j3, 6, "d((r*p-q).norm())/dq");
    }
    {
        auto e = dot(r * p, q) * (inverse(r) * q);
        auto [v, j1, j2, j3] = e.evalWithJacobians(r, p, q);
        eqm(v.value(), (A.R * B.v).dot(C.v) * (A.R.transpose() * C.v), "dot(r*p,q)*(inverse(r)*q)");
        jacV(v.value(), j1, 0, "d(dot(r*p,q)*(inverse(r)*q))/dr");
        jacV(v.value(), j2, 3, "d(dot(r*p,q)*(inverse(r)*q))/dp");
        jacV(v.value(), j3, 6, "d(dot(r*p,q)*(inverse(r)*q))/dq");
    }
}
extern "C" void G_framed() {
    VecIn A(0), B(3);
    double s;
    wg_real(&s, 1, 6);
    w::TranslationFd<FA, FB, FC> a{A.v};
    w::TranslationFd<FA, FC, FD> b{B.v};
    w::TranslationFd<FA, FB, FD> c{a + b};
    eqm(c.value(), A.v + B.v, "framed a+b");
    w::TranslationFd<FA, FC, FB> d{-a};
    eqm(d.value(), -A.v, "framed -a");
    w::TranslationFd<FA, FD, FC> f;
    f = -b;
    eqm(f.value(), -B.v, "framed f = -b");
    w::TranslationFd<FA, FB, FC> g{c - b};
    eqm(g.value(), A.v, "framed c-b");
    auto [v, j1, j2] = (a + b).evalWithJacobians(a, b);
    jacV(v.value(), j1, 0, "framed d(a+b)/da");
    jacV(v.value(), j2, 3, "framed d(a+b)/db");
    w::Framed<w::Scalar<double>, FA, FB, FC> k{s};
    eqs(k.value(), s, "framed scalar");
}
#endif
