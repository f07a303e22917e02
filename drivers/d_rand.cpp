// Random leaves: valid elements, uniformly distributed given uniform draws.
// The standard library's generator and Eigen's are trusted: each draw is a free number with its own derivative.
#include <random>
static int g_draws;
static double g_lo[16], g_hi[16], g_x[16];
extern "C" void wg_real(double *, int, int);
extern "C" void wg_sign(double *, int);
#ifdef WG_FLOAT
using RD = float;
static constexpr double ULP = 1e-6;
#else
using RD = double;
static constexpr double ULP = 1e-12;
#endif
static RD draw(double lo, double hi) {
    double x;
    wg_real(&x, 1, g_draws);
    g_lo[g_draws] = lo, g_hi[g_draws] = hi, g_x[g_draws] = x;
    ++g_draws;
    return x;
}
namespace std {
template <> template <> RD uniform_real_distribution<RD>::operator()<mt19937>(mt19937 &) { return draw(a(), b()); }
template <> template <> RD uniform_real_distribution<RD>::operator()<mt19937>(mt19937 &, const param_type &p) { return draw(p.a(), p.b()); }
template <> RD generate_canonical<RD, numeric_limits<RD>::digits, mt19937>(mt19937 &) { return draw(0, 1); }
}  // namespace std
#include <Eigen/Core>
namespace Eigen { namespace internal {
template <> struct random_impl<RD> {
    static RD run() { return draw(-1, 1); }
    static RD run(const RD &a, const RD &b) { return draw(a, b); }
};
}}  // namespace Eigen::internal
#include "leaves.hpp"
using RM = w::RotationMd;
using RQ = w::RotationQd;
using RA = w::RotationAd;
using TM = w::RigidTransformMd;
using TQ = w::RigidTransformQd;
using Tr = w::Translationd;
using Pt = w::Pointd;
using RR = w::RelativeRotationd;
using Tw = w::Twistd;

// draws over [lo, hi], scaled to u over [-1, 1]; an end closed by one unit in the last place is the end itself
static double snap(double x) {
    for (int i = -8; i <= 8; ++i) {
        if (std::abs(x - i) <= ULP) return i;
        if (std::abs(x - i * (M_PI / 2)) <= ULP) return i * (M_PI / 2);
    }
    return x;
}
static double half(int i) { return (snap(g_hi[i]) - snap(g_lo[i])) / 2; }
static double scaled(int i) { return (g_x[i] - (snap(g_hi[i]) + snap(g_lo[i])) / 2) / half(i); }
// squared density of the map from three draws, each scaled to the unit interval
template <int N> double density(const Eigen::Matrix<double, N, 1> &v, int d) {
    Eigen::Matrix<double, N, 3> j;
    wg_deriv(v.data(), N, d, 3, j.data());
    for (int i = 0; i < 3; ++i) j.col(i) *= 2 * half(d + i);
    const M3 g = j.transpose() * j;
    return g(0, 0) * (g(1, 1) * g(2, 2) - g(1, 2) * g(2, 1)) - g(0, 1) * (g(1, 0) * g(2, 2) - g(1, 2) * g(2, 0)) +
           g(0, 2) * (g(1, 0) * g(2, 1) - g(1, 1) * g(2, 0));
}
static double det(const M3 &m) {
    return m(0, 0) * (m(1, 1) * m(2, 2) - m(1, 2) * m(2, 1)) - m(0, 1) * (m(1, 0) * m(2, 2) - m(1, 2) * m(2, 0)) +
           m(0, 2) * (m(1, 0) * m(2, 1) - m(1, 1) * m(2, 0));
}
// v is a choice of the draws, up to order and sign: its coefficients are independent and range over [-1, 1]
template <int N, int D> static void box(const Eigen::Matrix<double, N, 1> &v, const char *l) {
    Eigen::Matrix<double, N, D> j;
    Eigen::Matrix<double, D, 1> u;
    wg_deriv(v.data(), N, 0, D, j.data());
    for (int i = 0; i < D; ++i) j.col(i) *= half(i), u(i) = scaled(i);
    eqm((j * j.transpose()).eval(), Eigen::Matrix<double, N, N>::Identity().eval(), l);
    eqm(j.cwiseProduct(j).cwiseProduct(j).eval(), j, "each coefficient is one draw");
    eqm((j * u).eval(), v, "coefficients range over [-1, 1]");
    // a map of the draws that branches on them need not be onto: its pieces must then be the draws themselves
    if (wg_guards() != 0) eqs(j.sum(), N, "coefficients range over [-1, 1] on every path");
}
static void proper(const M3 &r, const char *l) {
    eqm(M3(r * r.transpose()), M3::Identity(), l);
    eqs(det(r), 1, l);
}
static double s3() {  // area of the unit 3-sphere, 2 pi^2
    double p = 2 * M_PI;
    return p * p / 2;
}
#define S3 s3()
static void sphere(const Q4 &q, int from) {
    eqs(q.squaredNorm(), 1, "unit quaternion");
    Eigen::Matrix<double, 4, 1> c = q.coeffs();
    eqs(density<4>(c, from), S3 * S3, "the draws map onto the 3-sphere with constant density");
}
extern "C" void G_quaternion() {
    g_draws = 0;
    RQ q = RQ::Random();
    wg_i(g_draws, 3, "number of draws");
    sphere(q.value(), 0);
    RQ p = RQ::Random();
    wg_i(g_draws, 6, "the next element uses new draws");
    sphere(p.value(), 3);
}
extern "C" void G_util() {
    g_draws = 0;
    auto q = w::randomQuaternion<double>();
    sphere(q, 0);
}
// density of a rotation matrix in the metric of so(3): half the Frobenius metric, four times that of the sphere
extern "C" void G_matrix() {
    g_draws = 0;
    RM r = RM::Random();
    wg_i(g_draws, 3, "number of draws");
    proper(r.value(), "proper rotation");
    Eigen::Matrix<double, 9, 1> v = Eigen::Map<const Eigen::Matrix<double, 9, 1>>(r.value().data());
    eqs(density<9>(v, 0), 8 * 64 * S3 * S3, "the draws map onto SO(3) with constant density");
}
extern "C" void G_framed() {
    g_draws = 0;
    auto r = w::RotationMFd<FA, FB>::Random();
    proper(r.value(), "proper rotation");
    auto q = w::RotationQFd<FA, FB>::Random();
    sphere(q.value(), 3);
    auto t = w::TranslationFd<FA, FA, FB>::Random();
    wg_i(g_draws, 9, "number of draws");
    box<3, 9>(t.value(), "coefficients are independent draws");
}
template <class L, int N> static void vec() {
    g_draws = 0;
    const auto l = L::Random();
    wg_i(g_draws, N, "one draw for each coefficient");
    box<N, N>(l.value(), "coefficients are independent draws");
    const auto m = L::Random();
    wg_i(g_draws, 2 * N, "the next element uses new draws");
}
extern "C" void G_translation() { vec<Tr, 3>(); }
extern "C" void G_point() { vec<Pt, 3>(); }
extern "C" void G_relative() { vec<RR, 3>(); }
extern "C" void G_twist() { vec<Tw, 6>(); }
extern "C" void G_tm() {
    g_draws = 0;
    TM t = TM::Random();
    wg_i(g_draws, 6, "number of draws");
    M3 r = t.value().topLeftCorner<3, 3>();
    V3 p = t.value().topRightCorner<3, 1>();
    proper(r, "proper rotation");
    eqm(t.value().bottomRows<1>(), Eigen::Matrix<double, 1, 4>(0, 0, 0, 1), "last row");
    box<3, 6>(p, "translation coefficients are independent draws");
}
extern "C" void G_tq() {
    g_draws = 0;
    TQ t = TQ::Random();
    wg_i(g_draws, 6, "number of draws");
    Q4 q = std::get<0>(t.value()).value();
    eqs(q.squaredNorm(), 1, "unit quaternion");
    V3 p = std::get<1>(t.value()).value();
    box<3, 6>(p, "translation coefficients are independent draws");
}
extern "C" void G_angleaxis() {
    g_draws = 0;
    RA a = RA::Random();
    wg_i(g_draws, 3, "number of draws");
    const V3 x = a.value().axis();
    eqs(x.squaredNorm(), 1, "unit axis");
    const M3 r = a.value().toRotationMatrix();
    Eigen::Matrix<double, 9, 1> v = Eigen::Map<const Eigen::Matrix<double, 9, 1>>(r.data());
    eqs(density<9>(v, 0), 8 * 64 * S3 * S3, "the draws map onto SO(3) with constant density");
}
