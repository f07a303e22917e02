// Single precision counterparts of the intrinsics and of the library's aliases.
#pragma once
namespace wave {
using RotationMs = MatrixRotation<Eigen::Matrix3f>;
using RotationQs = QuaternionRotation<Eigen::Quaternionf>;
using RotationAs = AngleAxisRotation<Eigen::AngleAxisf>;
using RigidTransformMs = MatrixRigidTransform<Eigen::Matrix4f>;
using RigidTransformQs = CompactRigidTransform<Eigen::Quaternionf, Eigen::Vector3f>;
using Translations = Translation<Eigen::Vector3f>;
using Points = Point<Eigen::Vector3f>;
using RelativeRotations = RelativeRotation<Eigen::Vector3f>;
using Twists = Twist<Eigen::Matrix<float, 6, 1>>;
template <class A, class B> using RotationMFs = Framed<RotationMs, A, B>;
template <class A, class B> using RotationQFs = Framed<RotationQs, A, B>;
template <class A, class B> using RotationAFs = Framed<RotationAs, A, B>;
template <class A, class B> using RigidTransformMFs = Framed<RigidTransformMs, A, B>;
template <class A, class B> using RigidTransformQFs = Framed<RigidTransformQs, A, B>;
template <class A, class B, class C> using TranslationFs = Framed<Translations, A, B, C>;
template <class A, class B> using PointFs = Framed<Points, A, B>;
template <class A, class B, class C> using RelativeRotationFs = Framed<RelativeRotations, A, B, C>;
template <class A, class B, class C> using TwistFs = Framed<Twists, A, B, C>;
}  // namespace wave
#define RotationMd RotationMs
#define RotationQd RotationQs
#define RotationAd RotationAs
#define RigidTransformMd RigidTransformMs
#define RigidTransformQd RigidTransformQs
#define Translationd Translations
#define Pointd Points
#define RelativeRotationd RelativeRotations
#define Twistd Twists
#define RotationMFd RotationMFs
#define RotationQFd RotationQFs
#define RotationAFd RotationAFs
#define RigidTransformMFd RigidTransformMFs
#define RigidTransformQFd RigidTransformQFs
#define TranslationFd TranslationFs
#define PointFd PointFs
#define RelativeRotationFd RelativeRotationFs
#define TwistFd TwistFs
#define AngleAxisd AngleAxisf
#define Quaterniond Quaternionf
#define Matrix3d Matrix3f
#define Matrix4d Matrix4f
#define Vector3d Vector3f
#define MatrixXd MatrixXf
#define VectorXd VectorXf
#define RowVector3d RowVector3f
#define RowVector4d RowVector4f

namespace wgs {
struct In {  // float view of doubles an intrinsic writes
    double d[64];
    float *f;
    int n;
    In(float *f_, int n_) : f{f_}, n{n_} {
        for (int i = 0; i < n; ++i) d[i] = f[i];
    }
    ~In() {
        for (int i = 0; i < n; ++i) f[i] = float(d[i]);
    }
    operator double *() { return d; }
};
struct Fresh {  // the same, contents not read before
    double d[64];
    float *f;
    int n;
    Fresh(float *f_, int n_) : f{f_}, n{n_} {}
    ~Fresh() {
        for (int i = 0; i < n; ++i) f[i] = float(d[i]);
    }
    operator double *() { return d; }
};
struct Out {
    double d[256];
    Out(const float *f, int n) {
        for (int i = 0; i < n; ++i) d[i] = f[i];
    }
    operator const double *() const { return d; }
};
}  // namespace wgs
inline void wg_real(float *p, int n, int d) { wg_real(wgs::Fresh(p, n), n, d); }
inline void wg_const(float *p, float c, int d) { wg_const(wgs::Fresh(p, 1), double(c), d); }
inline void wg_sign(float *p, int s) { wg_sign(wgs::In(p, 1), s); }
inline void wg_vec3(float *p, int d) { wg_vec3(wgs::Fresh(p, 3), d); }
inline void wg_vec3w(float *p, int d) { wg_vec3w(wgs::Fresh(p, 3), d); }
inline void wg_phi(float *p, float *n) { wg_phi(wgs::Fresh(p, 3), wgs::Fresh(n, 1)); }
inline void wg_rot(float *R, float *q, float *a, int d) { wg_rot(wgs::Fresh(R, 9), wgs::Fresh(q, 4), wgs::Fresh(a, 4), d); }
inline void wg_rot0(float *R, float *q, float *a, int d) { wg_rot0(wgs::Fresh(R, 9), wgs::Fresh(q, 4), wgs::Fresh(a, 4), d); }
inline void wg_rotpi(float *R, float *q, float *a) { wg_rotpi(wgs::Fresh(R, 9), wgs::Fresh(q, 4), wgs::Fresh(a, 4)); }
inline void wg_rotz(float *R, float *q, float *a, float *r, int n) { wg_rotz(wgs::Fresh(R, 9), wgs::Fresh(q, 4), wgs::Fresh(a, 4), wgs::Fresh(r, 3), n); }
inline void wg_se3(float *t, float *R, float *q, float *T, float *a, int d) {
    wg_se3(wgs::Fresh(t, 3), wgs::Fresh(R, 9), wgs::Fresh(q, 4), wgs::Fresh(T, 16), wgs::Fresh(a, 4), d);
}
inline void wg_lower(float *L, int n) { wg_lower(wgs::Fresh(L, n * n), n); }
inline void wg_eq(const float *a, const float *b, int n, const char *l) { wg_eq(wgs::Out(a, n), wgs::Out(b, n), n, l); }
inline void wg_fin(const float *a, int n, const char *l) { wg_fin(wgs::Out(a, n), n, l); }
inline void wg_near(const float *a, int n, const char *l) { wg_near(wgs::Out(a, n), n, l); }
inline void wg_jac(const float *v, int kind, const float *J, int r, int c, int d, const char *l) {
    wg_jac(wgs::Out(v, kind == 0 ? r : kind == 1 ? 9 : 16), kind, wgs::Out(J, r * c), r, c, d, l);
}
inline void wg_deriv(const float *v, int n, int d, int c, float *o) {
    wg_deriv(wgs::Out(v, n), n, d, c, wgs::Fresh(o, n * c));
}
