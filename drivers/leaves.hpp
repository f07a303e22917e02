// Uniform construction of operands in each representation, for the drivers.
#pragma once
#include "wg.hpp"

struct FA; struct FB; struct FC; struct FD; struct FE;

template <class L> struct Mk;
template <> struct Mk<w::RotationMd> {
    static w::RotationMd rot(const M3 &R, const Q4 &, const double *) { return w::RotationMd{R}; }
};
template <> struct Mk<w::RotationQd> {
    static w::RotationQd rot(const M3 &, const Q4 &q, const double *) { return w::RotationQd{q}; }
};
template <> struct Mk<w::RotationAd> {
    static w::RotationAd rot(const M3 &, const Q4 &, const double *a) {
        return w::RotationAd{Eigen::AngleAxisd(a[0], V3(a[1], a[2], a[3]))};
    }
};
template <> struct Mk<w::RigidTransformMd> {
    static w::RigidTransformMd se(const SeIn &s) { return w::RigidTransformMd{s.T}; }
};
template <> struct Mk<w::RigidTransformQd> {
    static w::RigidTransformQd se(const SeIn &s) { return w::RigidTransformQd{s.q, s.t}; }
};
template <class... F> struct Mk<w::Framed<w::RotationMd, F...>> {
    using L = w::Framed<w::RotationMd, F...>;
    static L rot(const M3 &R, const Q4 &, const double *) { return L{R}; }
};
template <class... F> struct Mk<w::Framed<w::RotationQd, F...>> {
    using L = w::Framed<w::RotationQd, F...>;
    static L rot(const M3 &, const Q4 &q, const double *) { return L{q}; }
};
template <class... F> struct Mk<w::Framed<w::RotationAd, F...>> {
    using L = w::Framed<w::RotationAd, F...>;
    static L rot(const M3 &, const Q4 &, const double *a) {
        return L{Eigen::AngleAxisd(a[0], V3(a[1], a[2], a[3]))};
    }
};
template <class... F> struct Mk<w::Framed<w::RigidTransformMd, F...>> {
    using L = w::Framed<w::RigidTransformMd, F...>;
    static L se(const SeIn &s) { return L{s.T}; }
};
template <class... F> struct Mk<w::Framed<w::RigidTransformQd, F...>> {
    using L = w::Framed<w::RigidTransformQd, F...>;
    static L se(const SeIn &s) { return L{s.q, s.t}; }
};
template <class L> L mk(const RotIn &r) { return Mk<L>::rot(r.R, r.q, r.aa); }
template <class L> L mk(const SeIn &s) { return Mk<L>::se(s); }
template <class L> L mkrot(const SeIn &s) { return Mk<L>::rot(s.R, s.q, s.aa); }

// the value of an evaluated leaf in matrix / vector form, without going through the library's own
// conversions (framed or not)
inline M3 rm(const M3 &m) { return m; }
inline M3 rm(const Q4 &q) { return q.toRotationMatrix(); }
inline M3 rm(const Eigen::AngleAxisd &a) { return a.toRotationMatrix(); }
template <class L> M3 R(const L &l) { return rm(l.value()); }
template <class T> struct TV;
template <class I> struct TV<w::MatrixRigidTransform<I>> {
    static M4 get(const w::MatrixRigidTransform<I> &x) { return x.value(); }
};
template <class Q, class V> struct TV<w::CompactRigidTransform<Q, V>> {
    static M4 get(const w::CompactRigidTransform<Q, V> &x) {
        M4 m = M4::Identity();
        m.topLeftCorner<3, 3>() = std::get<0>(x.value()).value().toRotationMatrix();
        m.topRightCorner<3, 1>() = std::get<1>(x.value()).value();
        return m;
    }
};
template <class L, class... F> struct TV<w::Framed<L, F...>> {
    template <class V> static M4 val(const Eigen::MatrixBase<V> &v) { return v; }
    template <class A, class B> static M4 val(const std::tuple<A, B> &v) {
        M4 m = M4::Identity();
        m.topLeftCorner<3, 3>() = std::get<0>(v).value().toRotationMatrix();
        m.topRightCorner<3, 1>() = std::get<1>(v).value();
        return m;
    }
    static M4 get(const w::Framed<L, F...> &x) { return val(x.value()); }
};
template <class L> M4 T(const L &l) { return TV<L>::get(l); }

inline M4 se(const M3 &R, const V3 &t) {
    M4 m = M4::Identity();
    m.topLeftCorner<3, 3>() = R;
    m.topRightCorner<3, 1>() = t;
    return m;
}
inline M4 seinv(const M4 &X) {
    M3 Rt = X.topLeftCorner<3, 3>().transpose();
    return se(Rt, -(Rt * X.topRightCorner<3, 1>()));
}
inline M3 hat(const V3 &v) {
    M3 m;
    m << 0, -v(2), v(1), v(2), 0, -v(0), -v(1), v(0), 0;
    return m;
}
