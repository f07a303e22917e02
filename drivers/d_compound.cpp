// Compound (n-ary) expressions: values, Jacobians row block by row block, box operators.
#include "compound.hpp"
namespace wi = wave::internal;

struct In {
    VecIn A{0}, B{3};
    double s, u;
    w::Translationd a{A.v}, b{B.v};
    w::Scalar<double> f, g;
    In() {
        wg_real(&s, 1, 6);
        wg_real(&u, 1, 7);
        f = w::Scalar<double>{s};
        g = w::Scalar<double>{u};
    }
};
template <class... X> auto two(X &&... x) { return wi::makeCompound<ex::Two>(std::forward<X>(x)...); }
template <class... X> auto tri(X &&... x) { return wi::makeCompound<ex::Tri>(std::forward<X>(x)...); }
using V2 = Eigen::Matrix<double, 2, 1>;
#if PART == 1
extern "C" void G_two() {
    In i;
    V2 ref(i.s, i.s * i.u);
    const auto e = two(i.f, i.f * i.g);
    auto v = eval(e);
    eqs(v.template get<0>().value(), i.s, "first element");
    eqs(v.template get<1>().value(), i.s * i.u, "second element");
    auto [x, jf, jg] = e.evalWithJacobians(i.f, i.g);
    eqs(x.template get<0>().value(), i.s, "first element");
    eqs(x.template get<1>().value(), i.s * i.u, "second element");
    jacV<Eigen::Matrix<double, 2, 1>>(ref, jf, 6, "d/df");
    jacV<Eigen::Matrix<double, 2, 1>>(ref, jg, 7, "d/dg");
    jacV<Eigen::Matrix<double, 2, 1>>(ref, e.jacobian(i.g), 7, "jacobian(g)");
}
extern "C" void G_two_second_only() {
    In i;
    V2 ref(i.s, i.A.v.norm());
    const auto e = two(i.f, i.a.norm());
    auto [x, ja, jf, jb] = e.evalWithJacobians(i.a, i.f, i.b);
    eqs(x.template get<0>().value(), i.s, "first element");
    eqs(x.template get<1>().value(), i.A.v.norm(), "second element");
    jacV<Eigen::Matrix<double, 2, 3>>(ref, ja, 0, "d/da (second element only)");
    jacV<Eigen::Matrix<double, 2, 1>>(ref, jf, 6, "d/df (first element only)");
    eqm(jb, Eigen::Matrix<double, 2, 3>::Zero().eval(), "d/db (no element)");
}
#elif PART == 2
extern "C" void G_tri() {
    In i;
    w::RelativeRotationd r{i.B.v};
    V3 t = i.A.v * i.s;
    Eigen::Matrix<double, 7, 1> ref;
    ref << t, i.A.v.dot(i.A.v), i.B.v;
    const auto e = tri(i.f * i.a, dot(i.a, i.a), r);
    auto v = eval(e);
    eqm(v.template get<0>().value(), t, "first element");
    eqs(v.template get<1>().value(), i.A.v.dot(i.A.v), "second element");
    eqm(v.template get<2>().value(), i.B.v, "third element");
    eqm(valueAsVector(wi::adl{}, v), ref, "concatenated values");
    auto [x, ja, jf, jr] = e.evalWithJacobians(i.a, i.f, r);
    jacV<Eigen::Matrix<double, 7, 3>>(ref, ja, 0, "d/da (elements 0 and 1)");
    jacV<Eigen::Matrix<double, 7, 1>>(ref, jf, 6, "d/df (element 0)");
    jacV<Eigen::Matrix<double, 7, 3>>(ref, jr, 3, "d/dr (element 2)");
    (void) x;
}
extern "C" void G_tri_middle() {
    In i;
    w::RelativeRotationd r{i.B.v};
    Eigen::Matrix<double, 7, 1> ref;
    ref << i.A.v, i.s * i.u, i.B.v;
    const auto e = tri(i.a, i.f * i.g, r);
    jacV<Eigen::Matrix<double, 7, 1>>(ref, e.jacobian(i.g), 7, "d/dg (element 1)");
    jacV<Eigen::Matrix<double, 7, 3>>(ref, e.jacobian(i.a), 0, "d/da (element 0)");
    jacV<Eigen::Matrix<double, 7, 3>>(ref, e.jacobian(r), 3, "d/dr (element 2)");
}
#elif PART == 3
extern "C" void G_box() {
    In i;
    w::RelativeRotationd r{i.B.v};
    ex::Tri<> x{i.a, i.f, r}, y{i.b, i.g, w::RelativeRotationd{i.A.v}};
    auto d = eval(x - y);
    eqm(d.template get<0>().value(), i.A.v - i.B.v, "x-y, element 0");
    eqs(d.template get<1>().value(), i.s - i.u, "x-y, element 1");
    eqm(d.template get<2>().value(), i.B.v - i.A.v, "x-y, element 2");
    auto s = eval(x + y);
    eqm(s.template get<0>().value(), i.A.v + i.B.v, "x+y, element 0");
    eqs(s.template get<1>().value(), i.s + i.u, "x+y, element 1");
    eqm(s.template get<2>().value(), i.B.v + i.A.v, "x+y, element 2");
    auto c = eval(tri(i.f * i.a, i.g, r) - y);
    eqm(c.template get<0>().value(), i.s * i.A.v - i.B.v, "e-y, element 0");
    eqs(c.template get<1>().value(), i.u - i.u, "e-y, element 1");
}
extern "C" void G_copy() {
    In i;
    w::RelativeRotationd r{i.B.v};
    ex::Tri<> x{i.a, i.f, r}, y{i.b, i.g, w::RelativeRotationd{i.A.v}};
    ex::Tri<> z{x};
    eqm(z.template get<0>().value(), i.A.v, "copy");
    z = y;
    eqm(z.template get<0>().value(), i.B.v, "assignment");
    eqs(z.template get<1>().value(), i.u, "assignment");
    eqm(z.template get<2>().value(), i.A.v, "assignment");
    ex::Tri<> q{tri(i.f * i.a, i.g, r)};
    eqm(q.template get<0>().value(), i.s * i.A.v, "construction from an expression");
    eqs(q.template get<1>().value(), i.u, "construction from an expression");
}
#elif PART == 4
extern "C" void G_assign() {
    In i;
    w::RelativeRotationd r{i.B.v};
    ex::Tri<> z{i.b, i.g, r};
    z = tri(i.f * i.a, i.f, r);
    eqm(z.template get<0>().value(), i.s * i.A.v, "assignment from an expression");
    eqs(z.template get<1>().value(), i.s, "assignment from an expression");
    eqm(z.template get<2>().value(), i.B.v, "assignment from an expression");
    ex::Tri<> y{i.b, i.g, r};
    z = y - z;
    eqm(z.template get<0>().value(), i.B.v - i.s * i.A.v, "assignment from a difference");
}
#elif PART == 5
extern "C" void G_modes() {
    In i;
    V2 ref(i.s, i.A.v.norm() * i.u);
    const auto e = two(i.f, i.a.norm() * i.g);
    using J1 = Eigen::Matrix<double, 2, 1>;
    using J3 = Eigen::Matrix<double, 2, 3>;
    {
        auto [x, jf, ja, jg, jb] = wi::evaluateWithDynamicJacobians(e, i.f, i.a, i.g, i.b);
        jacV<J1>(ref, jf, 6, "dynamic d/df");
        jacV<J3>(ref, ja, 0, "dynamic d/da");
        jacV<J1>(ref, jg, 7, "dynamic d/dg");
        eqm(jb, J3::Zero().eval(), "dynamic d/db");
        eqs(x.template get<1>().value(), ref(1), "value");
    }
}
#elif PART == 6
// blocks of a matrix relating two compounds
using T3 = ex::Tri<>;
using T2 = ex::Two<w::Scalar<double>, w::Translationd>;
template <class M> void blocks(M &m, const Eigen::Matrix<double, 7, 4> &ref) {
    eqm(m.template blockWrt<0, 0>(), ref.block<3, 1>(0, 0), "blockWrt<0,0>");
    eqm(m.template blockWrt<1, 1>(), ref.block<1, 3>(3, 1), "blockWrt<1,1>");
    eqm(m.template blockWrt<2, 1>(), ref.block<3, 3>(4, 1), "blockWrt<2,1>");
    eqm(m.template blockWrt<2, 0>(), ref.block<3, 1>(4, 0), "blockWrt<2,0>");
    eqm(m.template rowsWrt<0>(), ref.topRows<3>(), "rowsWrt<0>");
    eqm(m.template rowsWrt<1>(), ref.middleRows<1>(3), "rowsWrt<1>");
    eqm(m.template rowsWrt<2>(), ref.bottomRows<3>(), "rowsWrt<2>");
    eqm(m.template colsWrt<0>(), ref.leftCols<1>(), "colsWrt<0>");
    eqm(m.template colsWrt<1>(), ref.rightCols<3>(), "colsWrt<1>");
}
extern "C" void G_blocks() {
    Eigen::Matrix<double, 7, 4> ref;
    wg_real(ref.data(), 28, 10);
    w::BlockMatrix<T3, T2> m{ref};
    const w::BlockMatrix<T3, T2> c{ref};
    blocks(m, ref);
    blocks(c, ref);
    m = ref * 2.;
    blocks(m, 2 * ref);
    m.blockWrt<2, 1>() = ref.block<3, 3>(0, 1);
    m.rowsWrt<1>() = ref.row(0);
    m.colsWrt<0>() = ref.col(1);
    Eigen::Matrix<double, 7, 4> r = 2 * ref;
    r.block<3, 3>(4, 1) = ref.block<3, 3>(0, 1);
    r.row(3) = ref.row(0);
    r.col(0) = ref.col(1);
    eqm(m, r, "assignment to blocks");
}
#elif PART == 7
// elements computed from framed leaves (a compound's elements carry no frames once evaluated)
using TrAAB = w::TranslationFd<FA, FA, FB>;
using TrBBC = w::TranslationFd<FB, FB, FC>;
using RotAB = w::RotationMFd<FA, FB>;
extern "C" void G_framed() {
    In i;
    RotIn Q(8);
    RotAB r = mk<RotAB>(Q);
    TrAAB a{i.A.v};
    TrBBC b{i.B.v};
    Eigen::Matrix<double, 6, 1> ref;
    V3 v0 = i.A.v + Q.R * i.B.v, v1 = i.s * i.B.v;
    ref << v0, v1;
    const auto e = wi::makeCompound<ex::Two>(a + r * b, i.f * b);
    const auto x = eval(e);
    eqm(x.get<0>().value(), v0, "element 0");
    eqm(x.get<1>().value(), v1, "element 1");
    auto [y, ja, jb, jr, jf, jg] = e.evalWithJacobians(a, b, r, i.f, i.g);
    eqm(y.template get<0>().value(), v0, "element 0");
    eqm(y.template get<1>().value(), v1, "element 1");
    using J3 = Eigen::Matrix<double, 6, 3>;
    using J1 = Eigen::Matrix<double, 6, 1>;
    jacV<J3>(ref, ja, 0, "d/da");
    jacV<J3>(ref, jb, 3, "d/db");
    jacV<J3>(ref, jr, 8, "d/dr");
    jacV<J1>(ref, jf, 6, "d/df");
    eqm(jg, J1::Zero().eval(), "d/dg");
}
#elif PART == 8
// the evaluators that know leaves by address: row blocks of unequal height, zero rows in every place
extern "C" void G_dyn_tri() {
    In i;
    w::RelativeRotationd r{i.B.v}, r0{i.B.v};
    using J3 = Eigen::Matrix<double, 7, 3>;
    using J1 = Eigen::Matrix<double, 7, 1>;
    Eigen::Matrix<double, 7, 1> ref;
    ref << i.A.v * i.s, i.s * i.u, i.B.v * i.u;
    const auto e = tri(i.f * i.a, i.f * i.g, i.g * r);
    auto check = [&](const auto &t, const char *l) {
        auto [x, ja, jf, jg, jr, jb, j0] = t;
        eqm(x.template get<0>().value(), V3(ref.head<3>()), l);
        eqs(x.template get<1>().value(), ref(3), l);
        eqm(x.template get<2>().value(), V3(ref.tail<3>()), l);
        jacV<J3>(ref, ja, 0, "d/da (element 0)");
        jacV<J1>(ref, jf, 6, "d/df (elements 0 and 1)");
        jacV<J1>(ref, jg, 7, "d/dg (elements 1 and 2)");
        jacV<J3>(ref, jr, 3, "d/dr (element 2)");
        eqm(jb, J3::Zero().eval(), "d/db (no element)");
        eqm(j0, J3::Zero().eval(), "d/d(equal-valued leaf of the type of r)");
    };
    check(e.evalWithJacobians(i.a, i.f, i.g, r, i.b, r0), "public");
    check(wi::evaluateWithJacobians(e, i.a, i.f, i.g, r, i.b, r0), "forward by address");
    check(wi::evaluateWithDynamicJacobians(e, i.a, i.f, i.g, r, i.b, r0), "forward dynamic");
}
extern "C" void G_dyn_tri_one() {
    // each leaf in exactly one element
    In i;
    double z;
    wg_real(&z, 1, 8);
    w::Scalar<double> h{z};
    w::RelativeRotationd r{i.B.v};
    using J3 = Eigen::Matrix<double, 7, 3>;
    using J1 = Eigen::Matrix<double, 7, 1>;
    Eigen::Matrix<double, 7, 1> ref;
    ref << i.A.v * i.s, i.u, i.B.v * z;
    const auto e = tri(i.f * i.a, i.g, h * r);
    auto check = [&](const auto &t) {
        auto [x, ja, jf, jg, jh, jr] = t;
        eqs(x.template get<1>().value(), ref(3), "value");
        jacV<J3>(ref, ja, 0, "d/da (element 0)");
        jacV<J1>(ref, jf, 6, "d/df (element 0)");
        jacV<J1>(ref, jg, 7, "d/dg (element 1)");
        jacV<J1>(ref, jh, 8, "d/dh (element 2)");
        jacV<J3>(ref, jr, 3, "d/dr (element 2)");
    };
    check(e.evalWithJacobians(i.a, i.f, i.g, h, r));
    check(wi::evaluateWithDynamicJacobians(e, i.a, i.f, i.g, h, r));
}
#endif
