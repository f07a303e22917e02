// Structured matrices: cross-product and identity matrices, block matrices, matrix maps.
#include "leaves.hpp"
namespace wi = wave::internal;
using Tr = w::Translationd;
using RR = w::RelativeRotationd;
using Tw = w::Twistd;
using RM = w::RotationMd;
using TM = w::RigidTransformMd;
using Sc = w::Scalar<double>;
template <int R, int C> using Mat = Eigen::Matrix<double, R, C>;
using MX = Eigen::MatrixXd;
template <class M> void real(M &m, int d = -1) { wg_real(m.data(), m.size(), d); }
struct In {
    V3 a, b;
    M3 A;
    Mat<3, 5> B;
    Mat<5, 3> C;
    Eigen::RowVector3d r;
    double s = 0;
    In() {
        real(a), real(b), real(A), real(B), real(C), real(r);
        wg_real(&s, 1, -1);
    }
};
#if PART == 1
extern "C" void G_cross_values() {
    In i;
    const auto x = w::crossMatrix(i.a);
    eqm(x, hat(i.a), "crossMatrix(a)");
    eqm(M3(x), hat(i.a), "crossMatrix(a) as a matrix");
    eqm(w::crossMatrix(-i.a), M3(-hat(i.a)), "crossMatrix(-a)");
    eqm(M3(-x), M3(-hat(i.a)), "-crossMatrix(a)");
    eqm(M3(-(-x)), hat(i.a), "-(-crossMatrix(a))");
    eqm(w::crossMatrix(i.A * i.a), hat(V3(i.A * i.a)), "crossMatrix of an expression");
    eqm(w::crossMatrix(i.a + i.b), hat(V3(i.a + i.b)), "crossMatrix of a sum");
    eqm(w::crossMatrix(V3(i.a)), hat(i.a), "crossMatrix of a temporary");
    eqm(w::crossMatrix(i.B.col(2)), hat(V3(i.B.col(2))), "crossMatrix of a column");
    eqm(w::uncrossMatrix(x), i.a, "uncrossMatrix");
    eqm(w::uncrossMatrix(hat(i.a)), i.a, "uncrossMatrix of a matrix");
    eqm(w::uncrossMatrix(2 * hat(i.a) - hat(i.b)), V3(2 * i.a - i.b), "uncrossMatrix of an expression");
}
extern "C" void G_cross_left() {
    In i;
    const M3 H = hat(i.a);
    const auto x = w::crossMatrix(i.a);
    eqm(V3(x * i.b), V3(H * i.b), "cross * vector");
    eqm(V3(x * (i.A * i.b)), V3(H * (i.A * i.b)), "cross * product");
    eqm(V3(-x * i.b), V3(-(H * i.b)), "-cross * vector");
    eqm(M3(x * i.A), M3(H * i.A), "cross * matrix");
    eqm(M3(-x * i.A), M3(-(H * i.A)), "-cross * matrix");
    eqm(M3(w::crossMatrix(-i.a) * i.A), M3(-(H * i.A)), "cross(-a) * matrix");
    eqm(Mat<3, 5>(x * i.B), Mat<3, 5>(H * i.B), "cross * wide matrix");
    eqm(Mat<3, 5>(w::crossMatrix(-i.a) * i.B), Mat<3, 5>(-(H * i.B)), "cross(-a) * wide matrix");
    eqm(M3(x * i.A.transpose()), M3(H * i.A.transpose()), "cross * transpose");
    eqm(M3(x * (i.A + i.A)), M3(H * (2 * i.A)), "cross * sum");
    eqm(M3(x * M3::Identity()), H, "cross * identity expression");
}
extern "C" void G_cross_right() {
    In i;
    const M3 H = hat(i.a);
    const auto x = w::crossMatrix(i.a);
    eqm(Eigen::RowVector3d(i.r * x), Eigen::RowVector3d(i.r * H), "row * cross");
    eqm(Eigen::RowVector3d(i.b.transpose() * x), Eigen::RowVector3d(i.b.transpose() * H), "transpose * cross");
    eqm(M3(i.A * x), M3(i.A * H), "matrix * cross");
    eqm(M3(i.A * w::crossMatrix(-i.a)), M3(-(i.A * H)), "matrix * cross(-a)");
    eqm(M3(i.A.transpose() * x), M3(i.A.transpose() * H), "transpose * cross");
    eqm(Mat<5, 3>(i.C * x), Mat<5, 3>(i.C * H), "tall matrix * cross");
    eqm(Mat<5, 3>(i.C * -x), Mat<5, 3>(-(i.C * H)), "tall matrix * -cross");
}
extern "C" void G_cross_pairs() {
    In i;
    const M3 H = hat(i.a), K = hat(i.b);
    const auto x = w::crossMatrix(i.a);
    const auto y = w::crossMatrix(i.b);
    eqm(M3(x * y), M3(H * K), "cross * cross");
    eqm(M3(-x * y), M3(-(H * K)), "-cross * cross");
    eqm(M3(x * -y), M3(-(H * K)), "cross * -cross");
    eqm(M3(x * x), M3(H * H), "cross squared");
    eqm(M3(x + y), M3(H + K), "cross + cross");
    eqm(M3(x - i.A), M3(H - i.A), "cross - matrix");
    eqm(M3(i.s * x), M3(i.s * H), "scalar * cross");
    eqm(M3(x * i.s), M3(i.s * H), "cross * scalar");
    eqm(M3(x / i.s), M3(H / i.s), "cross / scalar");
    eqm(M3(x.transpose()), M3(H.transpose()), "transpose");
    eqm(M3(x * w::IdentityMatrix<double, 3>{}), H, "cross * identity");
    eqm(M3(w::IdentityMatrix<double, 3>{} * x), H, "identity * cross");
}
extern "C" void G_cross_dynamic() {
    In i;
    const M3 H = hat(i.a);
    const auto x = w::crossMatrix(i.a);
    MX B = i.B, C = i.C;
    MX l = x * B, r = C * x, n = w::crossMatrix(-i.a) * B;
    wg_i(l.rows() * 100 + l.cols(), 305, "size");
    wg_i(r.rows() * 100 + r.cols(), 503, "size");
    Mat<3, 5> lf = l, nf = n;
    Mat<5, 3> rf = r;
    eqm(lf, Mat<3, 5>(H * i.B), "cross * dynamic matrix");
    eqm(nf, Mat<3, 5>(-(H * i.B)), "cross(-a) * dynamic matrix");
    eqm(rf, Mat<5, 3>(i.C * H), "dynamic matrix * cross");
}
extern "C" void G_identity() {
    In i;
    const w::IdentityMatrix<double, 3> I;
    eqm(M3(I), M3::Identity(), "value");
    eqm(M3(I * i.A), i.A, "identity * matrix");
    eqm(M3(i.A * I), i.A, "matrix * identity");
    eqm(V3(I * i.a), i.a, "identity * vector");
    eqm(Eigen::RowVector3d(i.r * I), i.r, "row * identity");
    eqm(Mat<3, 5>(I * i.B), i.B, "identity * wide matrix");
    eqm(Mat<5, 3>(i.C * I), i.C, "tall matrix * identity");
    eqm(M3(I * I), M3::Identity(), "identity * identity");
    eqm(M3(i.s * I), M3(i.s * M3::Identity()), "scalar * identity");
    eqm(M3(I * i.s), M3(i.s * M3::Identity()), "identity * scalar");
    eqm(M3(I / i.s), M3(M3::Identity() / i.s), "identity / scalar");
    eqm(M3(-I), M3(-M3::Identity()), "-identity");
    eqm(M3(I + i.A), M3(M3::Identity() + i.A), "identity + matrix");
    eqm(M3(i.A - I), M3(i.A - M3::Identity()), "matrix - identity");
    eqm(M3(I * (i.A * i.A)), M3(i.A * i.A), "identity * product");
    eqm(M3((i.A + i.A) * I), M3(2 * i.A), "sum * identity");
    MX D = i.B;
    Mat<3, 5> d = I * D;
    eqm(d, i.B, "identity * dynamic matrix");
    M6 S;
    real(S);
    eqm(M6(w::IdentityMatrix<double, 6>{} * S), S, "6x6");
    const Mat<1, 1> one = w::IdentityMatrix<double, 1>{};
    eqs(one(0, 0), 1, "1x1");
}
#elif PART == 2
// block matrices: blocks are where the tangent spaces' parts are
template <class L, class R, int I, int J, int r, int c, int nr, int nc>
static void block(const char *l) {
    w::BlockMatrix<L, R> m;
    real(m);
    const auto &k = m;
    eqm(Mat<nr, nc>(k.template blockWrt<I, J>()), Mat<nr, nc>(m.template block<nr, nc>(r, c)), l);
    eqm(Mat<nr, nc>(m.template blockWrt<I, J>()), Mat<nr, nc>(m.template block<nr, nc>(r, c)), l);
    using B = w::BlockMatrix<L, R>;
    eqm(Mat<B::RowsAtCompileTime, nc>(k.template colsWrt<J>()), Mat<B::RowsAtCompileTime, nc>(m.template middleCols<nc>(c)), l);
    eqm(Mat<nr, B::ColsAtCompileTime>(k.template rowsWrt<I>()), Mat<nr, B::ColsAtCompileTime>(m.template middleRows<nr>(r)), l);
    w::BlockMatrix<L, R> x = m;
    Mat<nr, nc> v;
    real(v);
    x.template blockWrt<I, J>() = v;
    Mat<B::RowsAtCompileTime, B::ColsAtCompileTime> e = m;
    e.template block<nr, nc>(r, c) = v;
    eqm(x, e, l);
    x = m;
    x.template colsWrt<J>().setZero();
    e = m;
    e.template middleCols<nc>(c).setZero();
    eqm(x, e, l);
    x = m;
    x.template rowsWrt<I>().setZero();
    e = m;
    e.template middleRows<nr>(r).setZero();
    eqm(x, e, l);
}
extern "C" void G_se_se() {
    block<TM, TM, 0, 0, 0, 0, 3, 3>("rotation wrt rotation");
    block<TM, TM, 0, 1, 0, 3, 3, 3>("rotation wrt translation");
    block<TM, TM, 1, 0, 3, 0, 3, 3>("translation wrt rotation");
    block<TM, TM, 1, 1, 3, 3, 3, 3>("translation wrt translation");
}
extern "C" void G_se_tw() {
    block<TM, Tw, 0, 1, 0, 3, 3, 3>("rotation wrt translation part");
    block<w::RigidTransformQd, Tw, 1, 0, 3, 0, 3, 3>("translation wrt rotation part");
    block<Tw, TM, 1, 0, 3, 0, 3, 3>("translation part wrt rotation");
}
extern "C" void G_vec_se() {
    block<Tr, TM, 0, 0, 0, 0, 3, 3>("vector wrt rotation");
    block<Tr, TM, 0, 1, 0, 3, 3, 3>("vector wrt translation");
    block<Sc, TM, 0, 1, 0, 3, 1, 3>("scalar wrt translation");
    block<RM, TM, 0, 1, 0, 3, 3, 3>("rotation wrt translation");
}
extern "C" void G_framed() {
    using F = w::RigidTransformMFd<FA, FB>;
    block<F, F, 1, 0, 3, 0, 3, 3>("framed");
    block<w::TranslationFd<FA, FA, FB>, F, 0, 1, 0, 3, 3, 3>("framed");
}
extern "C" void G_block_algebra() {
    using B = w::BlockMatrix<TM, TM>;
    B m;
    M6 k;
    real(m), real(k);
    M6 mm = m;
    B a = m * k;
    eqm(a, M6(mm * k), "product");
    a = m + k;
    eqm(a, M6(mm + k), "sum");
    B b{a};
    eqm(b, M6(mm + k), "copy");
    b = -m;
    eqm(b, M6(-mm), "negative");
    B z = B::Zero();
    eqm(z, M6::Zero(), "zero");
    eqm(B{B::Identity()}, M6::Identity(), "identity");
}
extern "C" void G_block_vector() {
    w::BlockVector<Tw> m;
    real(m);
    const V6 e = m;
    eqm(V3(m.blockWrt<0, 0>()), V3(e.head<3>()), "rotation part");
    eqm(V3(m.rowsWrt<1>()), V3(e.tail<3>()), "translation part");
}
extern "C" void G_diagonal() {
    w::DiagonalBlockMatrix<Tw> d;
    V6 v;
    real(v);
    d.diagonal() = v;
    eqm(M6(d), M6(v.asDiagonal()), "value");
    eqm(V3(d.segmentWrt<0>()), V3(v.head<3>()), "rotation part");
    eqm(V3(d.segmentWrt<1>()), V3(v.tail<3>()), "translation part");
    d.segmentWrt<1>().setZero();
    eqm(V3(d.diagonal().head<3>()), V3(v.head<3>()), "writing a segment");
    eqm(V3(d.diagonal().tail<3>()), V3::Zero(), "writing a segment");
}
#elif PART == 3
#include <vector>
extern "C" void G_matrix_map() {
    std::vector<std::pair<int, int>> keys{{3, 2}, {5, 3}, {9, 1}};
    w::MatrixMap<int, double> m{keys.begin(), keys.end(), 3};
    wg_i(m.at(3).cols(), 2, "width of the first");
    wg_i(m.at(5).cols(), 3, "width of the second");
    wg_i(m.at(9).cols(), 1, "width of the third");
    wg_i(m[5].rows(), 3, "rows");
    wg_i(m.count(5), 1, "count of a key");
    wg_i(m.count(4), 0, "count of an absent key");
    M3 a;
    Mat<3, 2> b;
    V3 c;
    real(a), real(b), real(c);
    m.setZero();
    Mat<3, 2> z2 = m.at(3);
    eqm(z2, Mat<3, 2>::Zero(), "setZero");
    m.at(5) = a;
    m[3] = b;
    m[9] = c;
    const auto &k = m;
    eqm(M3(k.at(5)), a, "second block");
    eqm(Mat<3, 2>(k.at(3)), b, "first block");
    eqm(V3(k.at(9)), c, "third block");
    eqm(M3(k[5]), a, "second block by operator[]");
    m[5] += a;
    eqm(M3(k[5]), M3(2 * a), "blocks are writable");
    eqm(Mat<3, 2>(k[3]), b, "other blocks stay");
    eqm(V3(k[9]), c, "other blocks stay");
    m.setZero();
    eqm(M3(k.at(5)), M3::Zero(), "setZero");
    eqm(V3(k.at(9)), V3::Zero(), "setZero");
}
extern "C" void G_matrix_map_pointers() {
    int x[4];
    std::vector<std::pair<const void *, int>> keys{{x, 3}, {x + 1, 1}, {x + 3, 6}};
    w::MatrixMap<const void *, double> m{keys.begin(), keys.end(), 6};
    wg_i(m.count(x + 2), 0, "absent");
    wg_i(m.count(x + 3), 1, "present");
    wg_i(m.at(x + 3).cols(), 6, "width");
    M6 a;
    real(a);
    m.setZero();
    m.at(x + 3) = a;
    eqm(M6(m.at(x + 3)), a, "block");
    eqm(V6(m.at(x + 1)), V6::Zero(), "other block");
}
#endif
