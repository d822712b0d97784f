// Common part of the harnesses: leaves of every representation built from the
// numbers of a specification behaviour, and comparison of what the library
// computes with what the specification says.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include "wave/geometry/geometry.hpp"
#include "wave/geometry/dynamic.hpp"
#include "wave/geometry/estimation.hpp"
#include "wave/geometry/debug.hpp"

namespace wv {

using Mat = Eigen::MatrixXd;

// Names of reference frames
struct fA;
struct fB;
struct fC;
struct fD;

struct LeafData {
    char kind;
    std::vector<double> c;  // R: matrix(9, by rows) quat(wxyz) axis(3) angle; T: R, t(3); else coords
    Eigen::Matrix3d rot() const {
        Eigen::Matrix3d m;
        m << c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7], c[8];
        return m;
    }
    Eigen::Quaterniond quat() const {
        return Eigen::Quaterniond{c[9], c[10], c[11], c[12]};
    }
    Eigen::AngleAxisd aa() const {
        return Eigen::AngleAxisd{c[16], Eigen::Vector3d{c[13], c[14], c[15]}};
    }
    Eigen::Vector3d t() const {
        return Eigen::Vector3d{c[17], c[18], c[19]};
    }
    Eigen::Vector3d v3() const {
        return Eigen::Vector3d{c[0], c[1], c[2]};
    }
    Eigen::Matrix<double, 6, 1> v6() const {
        Eigen::Matrix<double, 6, 1> v;
        v << c[0], c[1], c[2], c[3], c[4], c[5];
        return v;
    }
    Eigen::Matrix4d mat4() const {
        Eigen::Matrix4d m = Eigen::Matrix4d::Identity();
        m.topLeftCorner<3, 3>() = rot();
        m.topRightCorner<3, 1>() = t();
        return m;
    }
};

struct Case {
    int shape = 0, val = 0;
    std::string regime;
    int amb = 0;
    double tolv = 0, tolj = 0;
    bool num = false;
    std::vector<LeafData> leaves;
    std::vector<Mat> value;  // one per element (one, except for compounds)
    std::vector<Mat> jac;    // per leaf; empty if not specified
};

inline int g_checks = 0, g_fails = 0;

inline std::string str(const Mat &m) {
    std::ostringstream s;
    s.precision(12);
    s << "[";
    for (int i = 0; i < m.rows(); ++i) {
        if (i)
            s << "; ";
        for (int j = 0; j < m.cols(); ++j)
            s << (j ? " " : "") << m(i, j);
    }
    s << "]";
    return s.str();
}

inline void fail(const Case &c, const std::string &mode, const std::string &what) {
    ++g_fails;
    std::printf("FAIL shape=%d val=%d regime=%s mode=%s %s\n",
                c.shape, c.val, c.regime.c_str(), mode.c_str(), what.c_str());
    std::fflush(stdout);
}

inline bool near(const Mat &a, const Mat &b, double tol) {
    if (a.rows() != b.rows() || a.cols() != b.cols())
        return false;
    for (int i = 0; i < a.rows(); ++i)
        for (int j = 0; j < a.cols(); ++j)
            if (!(std::abs(a(i, j) - b(i, j)) <= tol))
                return false;
    return true;
}

inline void cmp(const Case &c, const std::string &mode, const std::string &what,
                const Mat &expected, const Mat &got, double tol) {
    ++g_checks;
    if (!near(expected, got, tol))
        fail(c, mode, what + " expected " + str(expected) + " got " + str(got) + " tol " +
                        std::to_string(tol));
}

//------------------------------------------------------------ values as matrices
template <typename D>
Mat toMat(const Eigen::MatrixBase<D> &m) {
    Mat x = m.derived().template cast<double>();
    if (D::RowsAtCompileTime == 4 && D::ColsAtCompileTime == 4) {
        // last row of a homogeneous matrix must stay 0 0 0 1: make any deviation visible
        if (!(x(3, 0) == 0 && x(3, 1) == 0 && x(3, 2) == 0 && x(3, 3) == 1))
            return x;
        return Mat{x.topRows(3)};
    }
    return x;
}
template <typename D>
Mat toMat(const Eigen::QuaternionBase<D> &q) {
    const double n = static_cast<double>(q.norm());
    if (!(std::abs(n - 1) < (sizeof(typename D::Scalar) == 4 ? 1e-5 : 1e-9)))
        return Mat::Constant(3, 3, std::nan(""));
    const double w = q.w(), x = q.x(), y = q.y(), z = q.z();
    Mat m(3, 3);
    m << w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y),
      2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x),
      2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z;
    return m;
}
template <typename S>
Mat toMat(const Eigen::AngleAxis<S> &a) {
    Eigen::Vector3d u = a.axis().template cast<double>();
    const double th = a.angle();
    const double n = u.norm();
    if (!(std::abs(n - 1) < (sizeof(S) == 4 ? 1e-5 : 1e-9)) && th != 0)
        return Mat::Constant(3, 3, std::nan(""));
    Eigen::Matrix3d k;
    k << 0, -u.z(), u.y(), u.z(), 0, -u.x(), -u.y(), u.x(), 0;
    return Mat{Eigen::Matrix3d::Identity() + std::sin(th) * k + (1 - std::cos(th)) * k * k};
}
inline Mat toMat(double x) {
    return Mat::Constant(1, 1, x);
}
template <typename A, typename B>
Mat toMat(const std::tuple<A, B> &t) {  // value of a compact transform
    Mat m(3, 4);
    m.leftCols(3) = toMat(std::get<0>(t).value());
    m.rightCols(1) = toMat(std::get<1>(t).value());
    return m;
}
template <typename L>
Mat valueOf(const L &leaf) {
    return toMat(leaf.value());
}

//------------------------------------------------------------ representations
// Every representation names its unframed leaf type and how to make it; mapped
// ones refer to the memory given.
struct Mem {
    alignas(32) double d[20];
    Mem() {
        for (auto &x : d)
            x = 7777.0;
    }
};

template <typename T, typename... F>
struct framed_type {
    using type = wave::Framed<T, F...>;
};
template <typename T>
struct framed_type<T> {
    using type = T;
};

using Map33 = Eigen::Map<Eigen::Matrix3d>;
using Map44 = Eigen::Map<Eigen::Matrix4d>;
using MapV3 = Eigen::Map<Eigen::Vector3d>;
using MapV6 = Eigen::Map<Eigen::Matrix<double, 6, 1>>;
using MapQ = Eigen::Map<Eigen::Quaterniond>;

#define WV_REP(NAME, KIND, TYPE, ...)                       \
    struct NAME {                                           \
        static constexpr char kind = KIND;                  \
        using type = TYPE;                                  \
        template <typename T>                               \
        static T make(const LeafData &d, double *m) {       \
            (void) m;                                       \
            (void) d;                                       \
            __VA_ARGS__                                     \
        }                                                   \
    };
WV_REP(RM, 'R', wave::RotationMd, return T{d.rot()};)
WV_REP(RQ, 'R', wave::RotationQd, return T{d.quat()};)
WV_REP(RA, 'R', wave::RotationAd, return T{d.aa()};)
WV_REP(RMm, 'R', wave::MatrixRotation<Map33>, Map33 x{m}; x = d.rot(); return T{x};)
WV_REP(RQm, 'R', wave::QuaternionRotation<MapQ>, MapQ x{m}; x = d.quat(); return T{x};)
WV_REP(TM, 'T', wave::RigidTransformMd, return T{d.mat4()};)
WV_REP(TQ, 'T', wave::RigidTransformQd, return T{d.quat(), d.t()};)
WV_REP(TMm, 'T', wave::MatrixRigidTransform<Map44>, Map44 x{m}; x = d.mat4(); return T{x};)
WV_REP(V, 'V', wave::Translationd, return T{d.v3()};)
WV_REP(Vm, 'V', wave::Translation<MapV3>, MapV3 x{m}; x = d.v3(); return T{x};)
WV_REP(P, 'P', wave::Pointd, return T{d.v3()};)
WV_REP(Pm, 'P', wave::Point<MapV3>, MapV3 x{m}; x = d.v3(); return T{x};)
WV_REP(W, 'W', wave::RelativeRotationd, return T{d.v3()};)
WV_REP(Wm, 'W', wave::RelativeRotation<MapV3>, MapV3 x{m}; x = d.v3(); return T{x};)
WV_REP(X, 'X', wave::Twistd, return T{d.v6()};)
WV_REP(Xm, 'X', wave::Twist<MapV6>, MapV6 x{m}; x = d.v6(); return T{x};)
WV_REP(S, 'S', wave::Scalar<double>, return T{d.c[0]};)

// Other storage: blocks, constant and strided maps
using Map45 = Eigen::Map<Eigen::Matrix<double, 4, 5>>;
using BlockM33 = Eigen::Block<Map45, 3, 3>;
using BlockV3 = Eigen::Block<Map45, 3, 1>;
using RowV3 = Eigen::Map<Eigen::Vector3d, 0, Eigen::InnerStride<3>>;
using CMap33 = Eigen::Map<const Eigen::Matrix3d>;
using CMap44 = Eigen::Map<const Eigen::Matrix4d>;
using CMapV3 = Eigen::Map<const Eigen::Vector3d>;
using CMapQ = Eigen::Map<const Eigen::Quaterniond>;
using SMap33 = Eigen::Map<Eigen::Matrix3d, 0, Eigen::OuterStride<5>>;
WV_REP(RMb, 'R', wave::MatrixRotation<BlockM33>, Map45 w{m}; BlockM33 x(w, 1, 1); x = d.rot(); return T{x};)
WV_REP(RMc, 'R', wave::MatrixRotation<CMap33>, Map33{m} = d.rot(); return T{CMap33{m}};)
WV_REP(RMs, 'R', wave::MatrixRotation<SMap33>, SMap33 x{m}; x = d.rot(); return T{x};)
WV_REP(RQc, 'R', wave::QuaternionRotation<CMapQ>, MapQ x{m}; x = d.quat(); return T{CMapQ{m}};)
WV_REP(TMc, 'T', wave::MatrixRigidTransform<CMap44>, Map44{m} = d.mat4(); return T{CMap44{m}};)
WV_REP(Vb, 'V', wave::Translation<BlockV3>, Map45 w{m}; BlockV3 x(w, 1, 2); x = d.v3(); return T{x};)
WV_REP(Vc, 'V', wave::Translation<CMapV3>, MapV3{m} = d.v3(); return T{CMapV3{m}};)
WV_REP(Vs, 'V', wave::Translation<RowV3>, RowV3 x{m}; x = d.v3(); return T{x};)
WV_REP(Wb, 'W', wave::RelativeRotation<BlockV3>, Map45 w{m}; BlockV3 x(w, 0, 1); x = d.v3(); return T{x};)
WV_REP(Ps, 'P', wave::Point<RowV3>, RowV3 x{m}; x = d.v3(); return T{x};)
// Single precision
using TransformQf = wave::CompactRigidTransform<Eigen::Quaternionf, Eigen::Vector3f>;
using TwistF = wave::Twist<Eigen::Matrix<float, 6, 1>>;
WV_REP(RMf, 'R', wave::MatrixRotation<Eigen::Matrix3f>, return T{d.rot().cast<float>()};)
WV_REP(RQf, 'R', wave::QuaternionRotation<Eigen::Quaternionf>, return T{d.quat().cast<float>()};)
WV_REP(RAf, 'R', wave::AngleAxisRotation<Eigen::AngleAxisf>, return T{d.aa().cast<float>()};)
WV_REP(TMf, 'T', wave::MatrixRigidTransform<Eigen::Matrix4f>, return T{d.mat4().cast<float>()};)
WV_REP(TQf, 'T', TransformQf, return T{d.quat().cast<float>(), d.t().cast<float>()};)
WV_REP(Vf, 'V', wave::Translation<Eigen::Vector3f>, return T{d.v3().cast<float>()};)
WV_REP(Pf, 'P', wave::Point<Eigen::Vector3f>, return T{d.v3().cast<float>()};)
WV_REP(Wf, 'W', wave::RelativeRotation<Eigen::Vector3f>, return T{d.v3().cast<float>()};)
WV_REP(Xf, 'X', TwistF, return T{d.v6().cast<float>()};)
WV_REP(Sf, 'S', wave::Scalar<float>, return T{static_cast<float>(d.c[0])};)

template <typename Rep, typename... F>
struct Leaf {
    using type = typename framed_type<typename Rep::type, F...>::type;
    Mem mem;
    Mem orig;
    type v;
    Leaf(const Case &c, int i) : mem(), v(Rep::template make<type>(c.leaves[i], mem.d)) {
        std::memcpy(orig.d, mem.d, sizeof(mem.d));
    }
    Leaf(const Leaf &) = delete;
    // memory around and in a mapped value is as it was
    bool untouched() const {
        return std::memcmp(orig.d, mem.d, sizeof(mem.d)) == 0;
    }
};

//------------------------------------------------------------ independent exp
using LMat = Eigen::Matrix<long double, 3, 3>;
inline Mat expTwist(const Mat &x) {
    Eigen::Matrix<long double, 3, 1> w = x.topRows(3).cast<long double>();
    Eigen::Matrix<long double, 3, 1> t = x.bottomRows(3).cast<long double>();
    LMat k;
    k << 0, -w(2), w(1), w(2), 0, -w(0), -w(1), w(0), 0;
    const long double th = w.norm();
    long double a = 1, b = 0.5L, cc = 1.0L / 6;
    if (th > 1e-4L) {
        a = std::sin(th) / th;
        b = (1 - std::cos(th)) / (th * th);
        cc = (1 - a) / (th * th);
    } else {
        a = 1 - th * th / 6;
        b = 0.5L - th * th / 24;
        cc = 1.0L / 6 - th * th / 120;
    }
    LMat R = LMat::Identity() + a * k + b * k * k;
    LMat Vv = LMat::Identity() + b * k + cc * k * k;
    Mat out(3, 4);
    out.leftCols(3) = R.cast<double>();
    out.rightCols(1) = (Vv * t).cast<double>();
    return out;
}

// A logarithm taken at a half turn may have either axis
inline void cmpLogAtPi(const Case &c, const std::string &mode, const Mat &expected, const Mat &got) {
    ++g_checks;
    bool ok = false;
    if (expected.rows() == 3)
        ok = near(expected, got, c.tolv) || near(Mat{-expected}, got, c.tolv);
    else
        ok = got.rows() == 6 && std::abs(got.topRows(3).norm() - M_PI) < c.tolv &&
             near(expTwist(expected), expTwist(got), 10 * c.tolv);
    if (!ok)
        fail(c, mode, "value (either sign at a half turn) expected " + str(expected) + " got " + str(got));
}

inline void cmpValue(const Case &c, const std::string &mode, const Mat &got) {
    if (c.value.size() != 1)
        return;
    if (c.amb)
        return cmpLogAtPi(c, mode, c.value[0], got);
    cmp(c, mode, "value", c.value[0], got, c.tolv);
}

//------------------------------------------------------------ reading cases
inline Mat readMat(std::istream &in) {
    int r, k;
    in >> r >> k;
    Mat m(r, k);
    std::string s;
    for (int i = 0; i < r; ++i)
        for (int j = 0; j < k; ++j) {
            in >> s;
            m(i, j) = std::strtod(s.c_str(), nullptr);
        }
    return m;
}

// C shape val regime amb tolv tolj num nleaves {kind n numbers} nvalues {mat} {0 | 1 mat}
inline std::map<int, std::vector<Case>> readCases(const char *file) {
    std::map<int, std::vector<Case>> all;
    std::ifstream in{file};
    std::string tag;
    while (in >> tag) {
        if (tag != "C") {
            std::fprintf(stderr, "bad case file\n");
            std::exit(3);
        }
        Case c;
        int nl, nv, num;
        in >> c.shape >> c.val >> c.regime >> c.amb >> c.tolv >> c.tolj >> num >> nl;
        c.num = num;
        for (int i = 0; i < nl; ++i) {
            LeafData d;
            int n;
            in >> d.kind >> n;
            std::string s;
            for (int j = 0; j < n; ++j) {
                in >> s;
                d.c.push_back(std::strtod(s.c_str(), nullptr));
            }
            c.leaves.push_back(d);
        }
        in >> nv;
        for (int i = 0; i < nv; ++i)
            c.value.push_back(readMat(in));
        for (int i = 0; i < nl; ++i) {
            int has;
            in >> has;
            c.jac.push_back(has ? readMat(in) : Mat{});
        }
        all[c.shape].push_back(c);
    }
    return all;
}

}  // namespace wv
