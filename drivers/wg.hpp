// Intrinsics of the value-flow analysis (tools/irflow.cpp gives them their meaning) and small
// helpers to build operands and state obligations.  Drivers are compiled to LLVM IR only; they are
// never linked or run.
#pragma once
#include <wave/geometry/geometry.hpp>
#include <wave/geometry/dynamic.hpp>
#ifdef WG_FLOAT  // everything a driver includes, before its text is read in single precision
#include <wave/geometry/estimation.hpp>
#include <Eigen/Core>
#include <Eigen/Eigenvalues>
#include <random>
#include <utility>
#include <vector>
#include <map>
#endif

extern "C" {
void wg_real(double *p, int n, int dbase);
void wg_const(double *p, double c, int dbase);
void wg_sign(double *p, int s);
void wg_vec3(double *p, int dbase);
void wg_vec3w(double *p, int dbase);
void wg_phi(double *p3, double *norm);
void wg_rot(double *R9, double *q4, double *aa4, int dbase);
void wg_rot0(double *R9, double *q4, double *aa4, int dbase);
void wg_rotpi(double *R9, double *q4, double *aa4);
void wg_rotz(double *R9, double *q4, double *aa4, double *rv3, int nearpi);
void wg_se3(double *t3, double *R9, double *q4, double *T16, double *aa4, int dbase);
void wg_lower(double *L, int n);
void wg_undef(double *p, int n);
void wg_eq(const double *a, const double *b, int n, const char *label);
void wg_fin(const double *a, int n, const char *label);
void wg_i(long a, long b, const char *label);
void wg_jac(const double *val, int kind, const double *J, int rows, int cols, int dbase, const char *label);
void wg_deriv(const double *val, int n, int dbase, int cols, double *out);
void wg_near(const double *out, int n, const char *label);
void wg_pure_begin(const char *label);
void wg_pure_end();
void wg_protect(const void *p, long n);
void wg_noalloc_begin(const char *label);
void wg_noalloc_end();
long wg_alloc_count();
long wg_live_heap();
long wg_guards();
void wg_done(const char *label);
}

namespace w = wave;
#ifdef WG_FLOAT
// The whole driver in single precision: its double, and the library's aliases for double, mean float.
using WgD = double;
#include "single.hpp"
#define double float
#endif
using V3 = Eigen::Matrix<double, 3, 1>;
using M3 = Eigen::Matrix<double, 3, 3>;
using M4 = Eigen::Matrix<double, 4, 4>;
using V6 = Eigen::Matrix<double, 6, 1>;
using M6 = Eigen::Matrix<double, 6, 6>;
using Q4 = Eigen::Quaternion<double>;

// a rotation in generic position, in every representation
struct RotIn {
    M3 R;
    Q4 q;
    double aa[4];
    V3 phi;      // rotation vector, and its length in (0, pi), whatever aa and q say
    double th;
    explicit RotIn(int d = -1) {
        wg_rot(R.data(), q.coeffs().data(), aa, d);
        wg_phi(phi.data(), &th);
    }
    Eigen::AngleAxisd AA() const {
        return Eigen::AngleAxisd(aa[0], V3(aa[1], aa[2], aa[3]));
    }
};
struct SeIn {
    V3 t;
    M3 R;
    Q4 q;
    M4 T;
    double aa[4];
    V3 phi;
    double th;
    explicit SeIn(int d = -1) {
        wg_se3(t.data(), R.data(), q.coeffs().data(), T.data(), aa, d);
        wg_phi(phi.data(), &th);
    }
};
struct VecIn {
    V3 v;
    explicit VecIn(int d = -1) {
        wg_real(v.data(), 3, d);
    }
};
struct WideIn {  // rotation vector of any length
    V3 v;
    explicit WideIn(int d = -1) {
        wg_vec3w(v.data(), d);
    }
};
struct PhiIn {  // rotation vector, |.| in (0,pi)
    V3 v;
    explicit PhiIn(int d = -1) {
        wg_vec3(v.data(), d);
    }
};

// column-major (row vectors excepted) copy in doubles
template <typename A>
auto plain(const A &a) {
    constexpr int r = A::RowsAtCompileTime, c = A::ColsAtCompileTime;
    return Eigen::Matrix<double, r, c, (r == 1 && c != 1) ? Eigen::RowMajor : Eigen::ColMajor>(a.template cast<double>());
}
template <typename A, typename B>
void eqm(const A &a, const B &b, const char *l) {
    auto x = plain(a);
    auto y = plain(b);
    static_assert(int(decltype(x)::SizeAtCompileTime) == int(decltype(y)::SizeAtCompileTime), "size");
    wg_eq(x.data(), y.data(), x.size(), l);
}
inline void eqs(double a, double b, const char *l) {
    wg_eq(&a, &b, 1, l);
}
template <typename A>
void finm(const A &a, const char *l) {
    auto x = plain(a);
    wg_fin(x.data(), x.size(), l);
}
template <typename A>
void nearm(const A &a, const char *l) {
    auto x = plain(a);
    wg_near(x.data(), x.size(), l);
}

// matrix form of a rotation / transform / vector leaf
template <typename D>
auto mat(const Eigen::MatrixBase<D> &m) {
    return m.template cast<double>().eval();
}
template <typename D>
M3 mat(const Eigen::RotationBase<D, 3> &r) {
    return r.derived().toRotationMatrix().template cast<double>();
}
inline Eigen::Matrix<double, 1, 1> mat(double s) {
    Eigen::Matrix<double, 1, 1> r;
    r(0, 0) = s;
    return r;
}
template <typename D>
M3 mat(const w::RotationBase<D> &r) {
    w::RotationMd m{r.derived()};
    return m.value();
}
template <typename D>
M4 mat(const w::RigidTransformBase<D> &r) {
    w::RigidTransformMd m{r.derived()};
    return m.value();
}

// derivative obligation.  VAL: matrix value of the result
template <typename J>
void jacV(const Eigen::Matrix<double, J::RowsAtCompileTime, 1> &val, const J &j, int d, const char *l) {
    auto m = plain(j);
    wg_jac(val.data(), 0, m.data(), m.rows(), m.cols(), d, l);
}
template <typename J>
void jacR(const M3 &val, const J &j, int d, const char *l) {
    Eigen::Matrix<double, J::RowsAtCompileTime, J::ColsAtCompileTime, 0> m = j.template cast<double>();
    static_assert(int(J::RowsAtCompileTime) == 3, "rows");
    wg_jac(val.data(), 1, m.data(), m.rows(), m.cols(), d, l);
}
template <typename J>
void jacT(const M4 &val, const J &j, int d, const char *l) {
    Eigen::Matrix<double, J::RowsAtCompileTime, J::ColsAtCompileTime, 0> m = j.template cast<double>();
    static_assert(int(J::RowsAtCompileTime) == 6, "rows");
    wg_jac(val.data(), 2, m.data(), m.rows(), m.cols(), d, l);
}
