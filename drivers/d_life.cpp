// Expressions own temporaries, refer to named operands, and their values are independent objects.
#include "leaves.hpp"
#include <utility>
namespace wi = wave::internal;
struct In {
    RotIn Q{0}, S{3};
    VecIn P{6}, B{9};
    SeIn X{12}, Y{18};
    PhiIn F{24};
    double s = 0, u = 0;
    In() {
        wg_real(&s, 1, 27);
        wg_real(&u, 1, 28);
    }
};
using RQ = w::RotationQd;
using RM = w::RotationMd;
using RA = w::RotationAd;
using TM = w::RigidTransformMd;
using TQ = w::RigidTransformQd;
using Tr = w::Translationd;
using Pt = w::Pointd;
using RR = w::RelativeRotationd;
using Tw = w::Twistd;
using Sc = w::Scalar<double>;
// every expression is built in another function from temporaries only, then evaluated twice here
#define TEMP(name, ref, form, ...)                                                        \
    __attribute__((noinline)) static auto make_##name(const In &i) { return __VA_ARGS__; } \
    extern "C" void G_##name() {                                                          \
        In i;                                                                             \
        const auto e = make_##name(i);                                                    \
        const auto x = w::eval(e);                                                        \
        const auto y = e.eval();                                                          \
        eqm(form(x), ref, #__VA_ARGS__);                                                  \
        eqm(form(y), ref, #__VA_ARGS__ " (again)");                                       \
        auto f = e;                                                                       \
        eqm(form(w::eval(std::move(f))), ref, #__VA_ARGS__ " (moved copy)");              \
    }
template <class E> auto V(const E &e) { return e.value(); }
template <class E> Eigen::Matrix<double, 1, 1> S(const E &e) { return Eigen::Matrix<double, 1, 1>(e.value()); }
inline M3 RT(const M4 &t) { return t.topLeftCorner<3, 3>(); }
inline V3 tT(const M4 &t) { return t.topRightCorner<3, 1>(); }
inline Eigen::Matrix<double, 1, 1> one(double d) { return Eigen::Matrix<double, 1, 1>(d); }
#if PART == 1
TEMP(inv, i.Q.R.transpose().eval(), R, inverse(mk<RM>(i.Q)))
TEMP(invq, i.Q.R.transpose().eval(), R, inverse(mk<RQ>(i.Q)))
TEMP(mul, (i.Q.R * i.S.R).eval(), R, mk<RM>(i.Q) * mk<RM>(i.S))
TEMP(mulmq, (i.Q.R * i.S.R).eval(), R, mk<RM>(i.Q) * mk<RQ>(i.S))
TEMP(mulaq, (i.Q.R * i.S.R).eval(), R, mk<RA>(i.Q) * mk<RQ>(i.S))
TEMP(mul3, (i.Q.R * i.S.R * i.Q.R).eval(), R, mk<RM>(i.Q) * mk<RQ>(i.S) * mk<RA>(i.Q))
TEMP(mul3r, (i.Q.R * (i.S.R * i.Q.R)).eval(), R, mk<RM>(i.Q) * (mk<RQ>(i.S) * mk<RA>(i.Q)))
TEMP(rot, (i.Q.R * i.P.v).eval(), V, mk<RM>(i.Q) * Tr{i.P.v})
TEMP(rotq, (i.Q.R * i.P.v).eval(), V, mk<RQ>(i.Q) * Tr{i.P.v})
TEMP(rot2, (i.Q.R * i.S.R * i.P.v).eval(), V, mk<RQ>(i.Q) * mk<RM>(i.S) * Tr{i.P.v})
TEMP(rotsum, (i.Q.R * (i.P.v + i.B.v)).eval(), V, mk<RM>(i.Q) * (Tr{i.P.v} + Tr{i.B.v}))
TEMP(lg, w::eval(log(mk<RM>(i.Q))).value(), V, log(mk<RM>(i.Q)))
TEMP(ex, R(w::eval(exp(RR{i.F.v}))), R, exp(RR{i.F.v}))
TEMP(minus, w::eval(log(RM{i.Q.R * i.S.R.transpose()})).value(), V, mk<RM>(i.Q) - mk<RM>(i.S))
#elif PART == 2
TEMP(sum, (i.P.v + i.B.v).eval(), V, Tr{i.P.v} + Tr{i.B.v})
TEMP(sum3, (i.P.v + i.B.v - i.P.v * 2).eval(), V, Tr{i.P.v} + Tr{i.B.v} - Tr{2 * i.P.v})
TEMP(neg, (-i.P.v).eval(), V, -Tr{i.P.v})
TEMP(scale, (i.s * i.P.v).eval(), V, Sc{i.s} * Tr{i.P.v})
TEMP(scaler, (i.P.v * i.s).eval(), V, Tr{i.P.v} * Sc{i.s})
TEMP(plain, (3.0 * i.P.v).eval(), V, 3.0 * Tr{i.P.v})
TEMP(plainr, (i.P.v * 3.0).eval(), V, Tr{i.P.v} * 3.0)
TEMP(plains, ((i.s + 1) * i.P.v).eval(), V, (i.s + 1) * Tr{i.P.v})
TEMP(quot, (i.P.v / i.s).eval(), V, Tr{i.P.v} / Sc{i.s})
TEMP(quotp, (i.P.v / 4.0).eval(), V, Tr{i.P.v} / 4.0)
TEMP(point, (i.P.v + i.B.v).eval(), V, Pt{i.P.v} + Tr{i.B.v})
TEMP(points, (i.P.v - i.B.v).eval(), V, Pt{i.P.v} - Pt{i.B.v})
TEMP(nested, (i.s * (i.P.v + i.B.v) / i.u).eval(), V, Sc{i.s} * (Tr{i.P.v} + Tr{i.B.v}) / Sc{i.u})
TEMP(nrm, one((i.P.v + i.B.v).norm()), S, (Tr{i.P.v} + Tr{i.B.v}).norm())
TEMP(nrm1, one(i.P.v.norm()), S, Tr{i.P.v}.norm())
TEMP(sq, one(i.P.v.squaredNorm()), S, Tr{i.P.v}.squaredNorm())
TEMP(nrmd, (i.P.v / i.P.v.norm()).eval(), V, Tr{i.P.v}.normalized())
TEMP(dt, one(i.P.v.dot(i.B.v)), S, dot(Tr{i.P.v}, Tr{i.B.v}))
TEMP(dte, one((2 * i.P.v).dot(i.B.v + i.P.v)), S, dot(2.0 * Tr{i.P.v}, Tr{i.B.v} + Tr{i.P.v}))
TEMP(sca, one(i.s * i.u + i.s - i.u / i.s), S, Sc{i.s} * Sc{i.u} + Sc{i.s} - Sc{i.u} / Sc{i.s})
#elif PART == 3
TEMP(tinv, seinv(i.X.T), T, inverse(mk<TM>(i.X)))
TEMP(tinvq, seinv(i.X.T), T, inverse(mk<TQ>(i.X)))
TEMP(tmul, (i.X.T * i.Y.T).eval(), T, mk<TM>(i.X) * mk<TM>(i.Y))
TEMP(tmulq, (i.X.T * i.Y.T).eval(), T, mk<TQ>(i.X) * mk<TQ>(i.Y))
TEMP(tact, (RT(i.X.T) * i.P.v + tT(i.X.T)).eval(), V, mk<TM>(i.X) * Tr{i.P.v})
TEMP(tactq, (RT(i.X.T) * i.P.v + tT(i.X.T)).eval(), V, mk<TQ>(i.X) * Tr{i.P.v})
TEMP(trot, RT(i.X.T), R, mk<TM>(i.X).rotation())
TEMP(trotq, RT(i.X.T), R, mk<TQ>(i.X).rotation())
TEMP(ttr, tT(i.X.T), V, mk<TM>(i.X).translation())
TEMP(ttrq, tT(i.X.T), V, mk<TQ>(i.X).translation())
TEMP(ttr2, tT(i.X.T * i.Y.T), V, (mk<TM>(i.X) * mk<TQ>(i.Y)).translation())
TEMP(trot2, RT(i.X.T * i.Y.T), R, (mk<TQ>(i.X) * mk<TQ>(i.Y)).rotation())
TEMP(trinv, (-tT(i.X.T)).eval(), V, -mk<TM>(i.X).translation())
#elif PART == 4
// named operands are referred to, also after they change; temporaries keep their value
extern "C" void G_live_binary() {
    In i;
    RM a = mk<RM>(i.Q);
    Tr p{i.P.v};
    auto ll = a * p;
    auto lr = a * Tr{p};
    auto rl = RM{a} * p;
    auto rr = RM{a} * Tr{p};
    auto mm = std::move(a) * std::move(p);   // moved from: stored by value
    const auto before = w::eval(ll);
    a = mk<RM>(i.S);
    p = Tr{i.B.v};
    eqm(w::eval(ll).value(), V3(i.S.R * i.B.v), "named, named");
    eqm(w::eval(lr).value(), V3(i.S.R * i.P.v), "named, temporary");
    eqm(w::eval(rl).value(), V3(i.Q.R * i.B.v), "temporary, named");
    eqm(w::eval(rr).value(), V3(i.Q.R * i.P.v), "temporary, temporary");
    eqm(w::eval(mm).value(), V3(i.Q.R * i.P.v), "moved, moved");
    eqm(before.value(), V3(i.Q.R * i.P.v), "a value does not change with the operands");
    jacV(V3(i.S.R * i.B.v), ll.jacobian(p), 9, "derivative at the current value");
    jacV(V3(i.S.R * i.P.v), lr.jacobian(a), 3, "derivative at the current value");
}
extern "C" void G_live_nested() {
    In i;
    RM a = mk<RM>(i.Q);
    RQ b = mk<RQ>(i.S);
    Tr p{i.P.v};
    auto sub = a * b;           // named expression: referred to
    auto e = sub * p;
    auto f = (a * b) * p;       // temporary expression over named leaves
    auto g = std::move(sub) * p;
    a = mk<RM>(i.S);
    eqm(w::eval(e).value(), V3(i.S.R * i.S.R * i.P.v), "named sub-expression");
    eqm(w::eval(f).value(), V3(i.S.R * i.S.R * i.P.v), "temporary sub-expression");
    eqm(w::eval(g).value(), V3(i.S.R * i.S.R * i.P.v), "moved sub-expression");
    p = Tr{i.B.v};
    eqm(w::eval(e).value(), V3(i.S.R * i.S.R * i.B.v), "named sub-expression, leaf");
    eqm(w::eval(f).value(), V3(i.S.R * i.S.R * i.B.v), "temporary sub-expression, leaf");
}
extern "C" void G_live_unary() {
    In i;
    RM a = mk<RM>(i.Q);
    Tr p{i.P.v};
    auto x = inverse(a);
    auto y = -p;
    auto z = log(a);
    auto n = p.norm();
    auto xt = inverse(RM{a});
    auto yt = -Tr{p};
    a = mk<RM>(i.S);
    p = Tr{i.B.v};
    eqm(R(w::eval(x)), M3(i.S.R.transpose()), "inverse(a)");
    eqm(w::eval(y).value(), V3(-i.B.v), "-p");
    eqm(w::eval(z).value(), w::eval(log(mk<RM>(i.S))).value(), "log(a)");
    eqs(w::eval(n).value(), i.B.v.norm(), "p.norm()");
    eqm(R(w::eval(xt)), M3(i.Q.R.transpose()), "inverse(temporary)");
    eqm(w::eval(yt).value(), V3(-i.P.v), "-temporary");
}
extern "C" void G_live_scalar() {
    In i;
    double s = i.s;
    Sc f{i.s};
    Tr p{i.P.v};
    auto a = f * p;
    auto b = Sc{f} * p;
    auto c = (s + 0.) * p;
    auto d = p / f;
    f = Sc{i.u};
    s = i.u;
    eqm(w::eval(a).value(), V3(i.u * i.P.v), "named scalar");
    eqm(w::eval(b).value(), V3(i.s * i.P.v), "temporary scalar");
    eqm(w::eval(c).value(), V3(i.s * i.P.v), "temporary number");
    eqm(w::eval(d).value(), V3(i.P.v / i.u), "named divisor");
    auto e = s * p;
    auto g = p * s;
    auto h = p / s;
    s = i.s;
    eqm(w::eval(e).value(), V3(i.s * i.P.v), "named number");
    eqm(w::eval(g).value(), V3(i.s * i.P.v), "named number on the right");
    eqm(w::eval(h).value(), V3(i.P.v / i.s), "named number as divisor");
    jacV(V3(i.s * i.P.v), e.jacobian(p), 6, "derivative at the current value");
}
extern "C" void G_live_transform() {
    In i;
    TM t = mk<TM>(i.X);
    TQ u = mk<TQ>(i.X);
    Tr p{i.P.v};
    auto a = t * p;
    auto b = t.rotation() * p;
    auto c = t.translation() + p;
    auto d = u.rotation() * p;
    auto e = u.translation() + p;
    auto f = TM{t}.rotation() * p;
    t = mk<TM>(i.Y);
    u = mk<TQ>(i.Y);
    p = Tr{i.B.v};
    M3 RY = i.Y.T.topLeftCorner<3, 3>(), RX = RT(i.X.T);
    V3 tY = i.Y.T.topRightCorner<3, 1>();
    eqm(w::eval(a).value(), V3(RY * i.B.v + tY), "t * p");
    eqm(w::eval(b).value(), V3(RY * i.B.v), "t.rotation() * p");
    eqm(w::eval(c).value(), V3(tY + i.B.v), "t.translation() + p");
    eqm(w::eval(d).value(), V3(RY * i.B.v), "u.rotation() * p");
    eqm(w::eval(e).value(), V3(tY + i.B.v), "u.translation() + p");
    eqm(w::eval(f).value(), V3(RX * i.B.v), "temporary.rotation() * p");
}
#elif PART == 5
// functions that return expressions over their arguments
template <class A, class B> auto between(A &&a, B &&b) { return inverse(std::forward<A>(a)) * std::forward<B>(b); }
template <class A, class P> auto residual(const A &a, const P &p) { return -(a * p); }
extern "C" void G_generic() {
    In i;
    RM a = mk<RM>(i.Q);
    RQ b = mk<RQ>(i.S);
    auto e1 = between(a, b);
    auto e2 = between(RM{a}, b);
    auto e3 = between(a, RQ{b});
    auto e4 = between(RM{a}, RQ{b});
    auto e5 = between(a * b, RM{a});
    a = mk<RM>(i.S);
    eqm(R(w::eval(e1)), M3(i.S.R.transpose() * i.S.R), "between(named, named)");
    eqm(R(w::eval(e2)), M3(i.Q.R.transpose() * i.S.R), "between(temporary, named)");
    eqm(R(w::eval(e3)), M3(i.S.R.transpose() * i.S.R), "between(named, temporary)");
    eqm(R(w::eval(e4)), M3(i.Q.R.transpose() * i.S.R), "between(temporary, temporary)");
    eqm(R(w::eval(e5)), M3((i.S.R * i.S.R).transpose() * i.Q.R), "between(expression, temporary)");
}
extern "C" void G_residual() {
    In i;
    RM a = mk<RM>(i.Q);
    Tr p{i.P.v};
    auto e = residual(a, p);
    V3 v = -(i.Q.R * i.P.v);
    auto [x, ja, jp] = e.evalWithJacobians(a, p);
    eqm(x.value(), v, "value");
    jacV(v, ja, 0, "d/da");
    jacV(v, jp, 6, "d/dp");
}
struct Frames { };
extern "C" void G_framed() {
    In i;
    using RFAB = w::RotationMFd<FA, FB>;
    using RFBC = w::RotationQFd<FB, FC>;
    using TF = w::TranslationFd<FC, FC, FD>;
    auto e = mk<RFAB>(i.Q) * mk<RFBC>(i.S) * TF{i.P.v};
    V3 v = i.Q.R * (i.S.R * i.P.v);
    eqm(w::eval(e).value(), v, "framed temporaries");
    auto [x, ja, jb, jp] = e.evalWithJacobians();
    eqm(x.value(), v, "value");
    jacV(v, ja, 0, "d/d(temporary)");
    jacV(v, jb, 3, "d/d(temporary)");
    jacV(v, jp, 6, "d/d(temporary)");
    auto c = w::frame_cast<FA, FD>(mk<RM>(i.Q) * mk<RQ>(i.S));
    eqm(R(w::eval(c)), M3(i.Q.R * i.S.R), "frame cast of temporaries");
}
extern "C" void G_copy_of_expression() {
    In i;
    RM a = mk<RM>(i.Q);
    auto e = a * RQ{mk<RQ>(i.S)};
    auto f = e;
    auto g = std::move(e);
    a = mk<RM>(i.S);
    eqm(R(w::eval(f)), M3(i.S.R * i.S.R), "copied expression");
    eqm(R(w::eval(g)), M3(i.S.R * i.S.R), "moved expression");
}
#elif PART == 6
// parts of temporaries, bound to references as users do
extern "C" void G_value_of_temporary() {
    In i;
    RM a = mk<RM>(i.Q);
    RQ b = mk<RQ>(i.S);
    Tr p{i.P.v};
    const auto &m = w::eval(a * b).value();
    auto &&v = w::eval(a * p).value();
    const auto &n = RM{a * b}.value();
    const auto &t = Tr{a * p}.value();
    auto &&n2 = (a * p).eval().value();
    const double &s = w::eval(p.norm()).value();
    const auto &x = mk<TM>(i.X).value();
    const auto &q = w::eval(b * b).value();
    const auto &aa = mk<RA>(i.Q).value();
    eqm(rm(m), M3(i.Q.R * i.S.R), "value of an evaluated rotation");
    eqm(v, V3(i.Q.R * i.P.v), "value of an evaluated vector");
    eqm(rm(n), M3(i.Q.R * i.S.R), "value of a temporary rotation");
    eqm(t, V3(i.Q.R * i.P.v), "value of a temporary vector");
    eqm(n2, V3(i.Q.R * i.P.v), "value of eval()");
    eqs(s, i.P.v.norm(), "value of an evaluated scalar");
    eqm(x, i.X.T, "value of a temporary transform");
    eqm(rm(q), M3(i.S.R * i.S.R), "value of a quaternion product");
    eqm(rm(aa), i.Q.R, "value of a temporary angle-axis rotation");
}
extern "C" void G_part_of_temporary() {
    In i;
    TM a = mk<TM>(i.X);
    TQ b = mk<TQ>(i.Y);
    auto &&r = w::eval(a * b).rotation();
    auto &&t = w::eval(a * b).translation();
    auto &&rq = w::eval(b * b).rotation();
    auto &&tq = w::eval(b * b).translation();
    const auto &ra = mk<TM>(i.X).rotation();
    const auto &ta = mk<TQ>(i.X).translation();
    M4 m = i.X.T * i.Y.T, n = i.Y.T * i.Y.T;
    eqm(R(w::eval(r)), RT(m), "rotation of an evaluated transform");
    eqm(w::eval(t).value(), tT(m), "translation of an evaluated transform");
    eqm(R(w::eval(rq)), RT(n), "rotation of an evaluated compact transform");
    eqm(w::eval(tq).value(), tT(n), "translation of an evaluated compact transform");
    eqm(R(w::eval(ra)), RT(i.X.T), "rotation of a temporary transform");
    eqm(w::eval(ta).value(), tT(i.X.T), "translation of a temporary compact transform");
}
extern "C" void G_operands_of_temporary() {
    In i;
    RM a = mk<RM>(i.Q);
    Tr p{i.P.v};
    auto &&l = (a * Tr{p}).rhs();
    auto &&u = inverse(RM{a}).rhs();
    auto &&n = (-(a * p)).rhs();
    const auto &k = (RM{a} * p).lhs();
    eqm(w::eval(l).value(), i.P.v, "operand of a temporary binary expression");
    eqm(R(w::eval(u)), i.Q.R, "operand of a temporary unary expression");
    eqm(w::eval(n).value(), V3(i.Q.R * i.P.v), "sub-expression of a temporary");
    eqm(R(w::eval(k)), i.Q.R, "left operand of a temporary binary expression");
}
extern "C" void G_framed_parts() {
    In i;
    using TF = w::RigidTransformMFd<FA, FB>;
    using TG = w::RigidTransformQFd<FA, FB>;
    using TrF = w::TranslationFd<FA, FA, FB>;
    auto &&r = mk<TF>(i.X).rotation();
    auto &&t = mk<TF>(i.X).translation();
    auto &&rg = mk<TG>(i.X).rotation();
    auto &&tg = mk<TG>(i.X).translation();
    const auto &v = TrF{i.P.v}.value();
    const auto &e = w::eval(TrF{i.P.v} + w::TranslationFd<FA, FB, FC>{i.B.v}).value();
    eqm(R(w::eval(r)), RT(i.X.T), "rotation of a framed temporary");
    eqm(w::eval(t).value(), tT(i.X.T), "translation of a framed temporary");
    eqm(R(w::eval(rg)), RT(i.X.T), "rotation of a framed compact temporary");
    eqm(w::eval(tg).value(), tT(i.X.T), "translation of a framed compact temporary");
    eqm(v, i.P.v, "value of a framed temporary");
    eqm(e, V3(i.P.v + i.B.v), "value of an evaluated framed vector");
}
extern "C" void G_value_of_compound_temporary() {
    In i;
    TQ b = mk<TQ>(i.Y), a = mk<TQ>(i.X);
    w::Twistd x{i.P.v, i.B.v};
    const auto &v = mk<TQ>(i.X).value();
    auto &&u = w::eval(a * b).value();
    auto &&c = w::eval(inverse(a)).value();
    auto &&t = w::Twistd{i.P.v, i.B.v}.value();
    const auto &y = w::eval(x).value();
    const auto &r = w::RelativeRotationd{i.P.v}.value();
    const auto &s = w::Scalar<double>{i.s}.value();
    const auto &sp = w::eval(w::Scalar<double>{i.s} * i.u).value();
    M4 m = i.X.T * i.Y.T;
    eqm(R(std::get<0>(v)), RT(i.X.T), "value of a temporary compact transform: rotation");
    eqm(std::get<1>(v).value(), tT(i.X.T), "value of a temporary compact transform: translation");
    eqm(R(std::get<0>(u)), RT(m), "value of an evaluated compact transform: rotation");
    eqm(std::get<1>(u).value(), tT(m), "value of an evaluated compact transform: translation");
    eqm(R(std::get<0>(c)), M3(RT(i.X.T).transpose()), "value of an evaluated inverse");
    eqm(V3(t.template head<3>()), i.P.v, "value of a temporary twist: rotation");
    eqm(V3(t.template tail<3>()), i.B.v, "value of a temporary twist: translation");
    eqm(V3(y.template head<3>()), i.P.v, "value of an evaluated twist");
    eqm(r, i.P.v, "value of a temporary relative rotation");
    eqs(s, i.s, "value of a temporary scalar");
    eqs(sp, i.s * i.u, "value of an evaluated scalar product");
}
#endif
