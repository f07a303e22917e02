// Which leaf a derivative is taken with respect to: repeated leaves contribute once per
// occurrence, equal-typed leaves are told apart by identity, and objects the expression does not
// refer to have derivative zero.  (Precondition stated by the library: in an expression whose leaves
// all have different types, a target of one of these types must be that leaf.)
#include "leaves.hpp"

template <class J> void zero(const J &j, int r, int c, const char *l) {
    wg_i(j.rows(), r, "rows of a zero Jacobian");
    wg_i(j.cols(), c, "columns of a zero Jacobian");
    eqm(j, J::Zero().eval(), l);
}

template <class RA, class TA> static void same() {
    RotIn A(0), B(3);
    VecIn P(6), Q(9);
    RA a = mk<RA>(A), b = mk<RA>(B), other = mk<RA>(A), cp = a;
    w::Translationd p{P.v}, q{Q.v}, po{P.v};
    {   // equal values, distinct objects
        auto [v, ja, jo, jb, jc] = (a * b).evalWithJacobians(a, other, b, cp);
        jacR(R(v), ja, 0, "d(a*b)/da");
        jacR(R(v), jb, 3, "d(a*b)/db");
        zero(jo, 3, 3, "d(a*b)/d(other object)");
        zero(jc, 3, 3, "d(a*b)/d(copy of a)");
    }
    {   // repeated leaves
        auto [v, ja, jb] = (a * inverse(b) * a * b).evalWithJacobians(a, b);
        jacR(R(v), ja, 0, "d(a*inverse(b)*a*b)/da");
        jacR(R(v), jb, 3, "d(a*inverse(b)*a*b)/db");
        jacR(R(v), (a * inverse(b) * a * b).jacobian(b), 3, "jacobian(b)");
    }
    {   // targets of other types
        auto [v, jp, ja, jq] = (a * p + q + a * p).evalWithJacobians(p, a, q);
        V3 x = v.value();
        jacV(x, jp, 6, "d(a*p+q+a*p)/dp");
        jacV(x, ja, 0, "d(a*p+q+a*p)/da");
        jacV(x, jq, 9, "d(a*p+q+a*p)/dq");
        zero((a * p + q).jacobian(po), 3, 3, "unrelated translation");
        zero((a * p + q).jacobian(b), 3, 3, "unrelated rotation");
        zero((a * b).jacobian(p), 3, 3, "translation in a product of rotations");
        w::Scalar<double> s{1.5};
        zero((a * b).jacobian(s), 3, 1, "scalar in a product of rotations");
    }
    {   // a leaf as an expression
        auto [v, ja, jo] = a.evalWithJacobians(a, p);
        eqm(R(v), A.R, "value of a leaf");
        eqm(ja, M3::Identity(), "d(a)/da");
        zero(jo, 3, 3, "d(a)/dp");
        eqm(a.jacobian(a), M3::Identity(), "a.jacobian(a)");
        zero(a.jacobian(p), 3, 3, "a.jacobian(p)");
    }
    {
        SeIn S(12);
        TA t = mk<TA>(S), u = mk<TA>(S);
        auto [v, jt, ju] = (t * p + t * q).evalWithJacobians(t, u);
        V3 x = v.value();
        jacV(x, jt, 12, "d(t*p+t*q)/dt");
        zero(ju, 3, 6, "d(t*p+t*q)/d(equal transform)");
        zero((t * u).jacobian(p), 6, 3, "translation in a product of transforms");
        zero((t * u).jacobian(a), 6, 3, "rotation in a product of transforms");
        auto [y, jy, jz, j0] = (t * inverse(u) * t).evalWithJacobians(t, u, a);
        Eigen::Matrix<double, 6, 6> tot = jy + jz;
        jacT(T(y), tot, 12, "d(t*inverse(u)*t) for t and u of equal value");
        zero(j0, 6, 3, "rotation in a product of transforms");
    }
}
#if PART == 1
extern "C" void G_same_MM() { same<w::RotationMd, w::RigidTransformMd>(); }
#elif PART == 2
extern "C" void G_same_QQ() { same<w::RotationQd, w::RigidTransformQd>(); }
#elif PART == 3
// vectors and scalars
extern "C" void G_vec() {
    VecIn A(0), B(3);
    w::Translationd a{A.v}, b{B.v}, o{A.v};
    w::Scalar<double> s{2.5}, s2{2.5};
    {
        auto [v, ja, jo, jb] = (a + b - a + a).evalWithJacobians(a, o, b);
        jacV<M3>(v.value(), ja, 0, "d(a+b-a+a)/da");
        jacV<M3>(v.value(), jb, 3, "d(a+b-a+a)/db");
        zero(jo, 3, 3, "d(a+b-a+a)/d(other)");
    }
    {
        double x;
        wg_real(&x, 1, 6);
        w::Scalar<double> f{x}, g{x};
        auto e = f * (f * a + b) - f * g * a;
        auto [v, jf, jg, ja, j2] = e.evalWithJacobians(f, g, a, s2);
        // f and g hold the same value, which is input 6: derivatives add up to the total
        V3 y = v.value();
        Eigen::Matrix<double, 3, 1> tot = jf + jg;
        jacV(y, tot, 6, "d/df + d/dg");
        eqm(jf, (2 * x * A.v + B.v - x * A.v).eval(), "d/df");
        eqm(jg, (-x * A.v).eval(), "d/dg");
        jacV(y, ja, 0, "d/da");
        zero(j2, 3, 1, "d/d(other scalar)");
    }
    {
        zero((a + b).norm().jacobian(o), 1, 3, "d|a+b|/do");
        auto [n, j] = dot(a, a).evalWithJacobians(a);
        Eigen::Matrix<double, 1, 1> m;
        m(0, 0) = double(n);
        jacV(m, j, 0, "d(a.a)/da");
    }
    {
        w::Pointd p{A.v}, q{B.v}, r{A.v};
        auto [v, jp, jq, jr] = (p - q).evalWithJacobians(p, q, r);
        jacV<M3>(v.value(), jp, 0, "d(p-q)/dp");
        jacV<M3>(v.value(), jq, 3, "d(p-q)/dq");
        zero(jr, 3, 3, "d(p-q)/dr");
        zero((p - q).jacobian(a), 3, 3, "d(p-q)/d(translation)");
    }
}
#elif PART == 4
// leaves told apart by their frames
extern "C" void G_framed() {
    RotIn A(0), B(3);
    VecIn P(6);
    auto a = mk<w::RotationMFd<FA, FB>>(A);
    auto b = mk<w::RotationQFd<FB, FC>>(B);
    w::TranslationFd<FC, FC, FD> p{P.v};
    w::TranslationFd<FB, FC, FD> o{P.v};
    zero((a * b).jacobian(p), 3, 3, "translation in a product");
    zero((b * p).jacobian(o), 3, 3, "translation in other frames");
    zero((b * p).jacobian(a), 3, 3, "rotation between other frames");
    jacV<M3>(eval(b * p).value(), (b * p).jacobian(b), 3, "d(b*p)/db");
    jacV<M3>(eval(b * p).value(), (b * p).jacobian(p), 6, "d(b*p)/dp");
    // same type twice: identity decides
    auto c = mk<w::RotationMFd<FA, FA>>(A);
    auto d = mk<w::RotationMFd<FA, FA>>(B);
    auto e = mk<w::RotationMFd<FA, FA>>(A);
    auto [v, jc, jd, je] = (c * d).evalWithJacobians(c, d, e);
    jacR(R(v), jc, 0, "d(c*d)/dc");
    jacR(R(v), jd, 3, "d(c*d)/dd");
    zero(je, 3, 3, "d(c*d)/de");
}
#elif PART == 5
// a target the expression does not contain, beside ones it does
extern "C" void G_framed_mixed() {
    RotIn A(0), B(3);
    VecIn P(6);
    auto a = mk<w::RotationMFd<FA, FB>>(A);
    auto b = mk<w::RotationQFd<FB, FC>>(B);
    w::TranslationFd<FC, FC, FD> p{P.v};
    auto [v, ja, jp, jb] = (a * b).evalWithJacobians(a, p, b);
    jacR(R(v), ja, 0, "d(a*b)/da");
    jacR(R(v), jb, 3, "d(a*b)/db");
    zero(jp, 3, 3, "d(a*b)/dp");
}
#elif PART == 6
// a named sub-expression as the target: the derivative with respect to its value, where exactly
// that expression (the same operation on the same leaves) occurs
extern "C" void G_sub_vec() {
    VecIn A(0), B(3), C(6);
    RotIn Q(9);
    w::Translationd a{A.v}, b{B.v}, c{C.v};
    auto r = mk<w::RotationMd>(Q);
    const auto s = a + b;
    const auto o = a + c, o2 = c + b, o3 = b + a;
    const auto e = r * s;
    V3 v = Q.R * (A.v + B.v);
    auto [x, js, jo, j2, j3, ja, jr] = e.evalWithJacobians(s, o, o2, o3, a, r);
    eqm(x.value(), v, "value");
    eqm(js, Q.R, "d(r*(a+b))/d(a+b)");
    zero(jo, 3, 3, "d(r*(a+b))/d(a+c)");
    zero(j2, 3, 3, "d(r*(a+b))/d(c+b)");
    zero(j3, 3, 3, "d(r*(a+b))/d(b+a)");
    jacV(v, ja, 0, "d(r*(a+b))/da");
    jacV(v, jr, 9, "d(r*(a+b))/dr");
    const auto t = -a;
    const auto u = -b;
    auto [y, jt, ju] = (r * t + t).evalWithJacobians(t, u);
    eqm(jt, (Q.R + M3::Identity()).eval(), "d(r*-a + -a)/d(-a)");
    zero(ju, 3, 3, "d(r*-a + -a)/d(-b)");
    (void) y;
}
extern "C" void G_sub_rot() {
    RotIn Q(0), S(3);
    VecIn P(6);
    auto a = mk<w::RotationMd>(Q), b = mk<w::RotationMd>(S);
    w::Translationd p{P.v};
    const auto s = a * b;
    const auto o = b * a, ab2 = a * a;
    const auto i = inverse(a), ib = inverse(b);
    M3 m = Q.R * S.R;
    auto [x, js, jo, j2] = (s * p).evalWithJacobians(s, o, ab2);
    eqm(x.value(), V3(m * P.v), "value");
    eqm(js, (-hat(V3(m * P.v))).eval(), "d(a*b*p)/d(a*b)");
    zero(jo, 3, 3, "d(a*b*p)/d(b*a)");
    zero(j2, 3, 3, "d(a*b*p)/d(a*a)");
    auto [y, ji, jb] = (i * b).evalWithJacobians(i, ib);
    eqm(R(y), M3(Q.R.transpose() * S.R), "value");
    eqm(ji, M3::Identity(), "d(inverse(a)*b)/d(inverse(a))");
    zero(jb, 3, 3, "d(inverse(a)*b)/d(inverse(b))");
}
#endif
