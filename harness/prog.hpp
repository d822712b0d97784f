// Programs written out as C++: statements and what must be seen after them.
#pragma once
#include "store.hpp"

namespace wv {

static int g_run = 0;

inline void bad(int step, const std::string &what) {
    ++g_fails;
    std::printf("FAIL run=%d step=%d %s\n", g_run, step, what.c_str());
    std::fflush(stdout);
}
// Numbers by rows.  No numbers: zero, of any size (an empty matrix as well)
inline void ck(int step, const char *what, const Mat &got, int rows, const Nums &want, double tol = 1e-9) {
    ++g_checks;
    if (want.empty()) {
        if (got.size() != 0 && !(got.array().abs() <= tol).all())
            bad(step, std::string(what) + " is " + str(got) + " and should be zero");
        return;
    }
    const int cols = static_cast<int>(want.size()) / rows;
    Mat w(rows, cols);
    for (int i = 0; i < rows; ++i)
        for (int j = 0; j < cols; ++j)
            w(i, j) = want[i * cols + j];
    if (!near(w, got, tol))
        bad(step, std::string(what) + " is " + str(got) + " and should be " + str(w));
}
inline void ckb(int step, const char *what, bool got, bool want) {
    ++g_checks;
    if (got != want)
        bad(step, std::string(what) + (got ? " is true" : " is false"));
}

template <typename D>
Mat dense(const Eigen::EigenBase<D> &m) {
    return Eigen::Matrix<typename D::Scalar, Eigen::Dynamic, Eigen::Dynamic>(m.derived()).template cast<double>();
}
inline Mat dense(double x) {
    return Mat::Constant(1, 1, x);
}
// A matrix of these numbers, by rows
inline Mat filled(int r, int c, const Nums &x) {
    Mat m(r, c);
    for (int i = 0; i < r; ++i)
        for (int j = 0; j < c; ++j)
            m(i, j) = x[i * c + j];
    return m;
}
template <typename F>
bool throws(F f) {
    try {
        f();
    } catch (const std::exception &) {
        return true;
    }
    return false;
}
// value of a leaf: a column, or rotation by rows and translation
template <typename L>
Mat column(const L &x) {
    const Mat v = valueOf(x);
    Mat r(v.size(), 1);
    int k = 0;
    if (v.rows() == 3 && v.cols() >= 3) {
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j)
                r(k++, 0) = v(i, j);
        if (v.cols() == 4)
            for (int i = 0; i < 3; ++i)
                r(k++, 0) = v(i, 3);
        return r;
    }
    for (int i = 0; i < v.rows(); ++i)
        for (int j = 0; j < v.cols(); ++j)
            r(k++, 0) = v(i, j);
    return r;
}

using LV = F3<wave::Translationd>;
using LP = F2<wave::Pointd>;
using LW = F3<wave::RelativeRotationd>;
using LX = F3<wave::Twistd>;
using LS = wave::Scalar<double>;
using LR = F2<wave::RotationMd>;
using LQ = F2<wave::RotationQd>;
using LA = F2<wave::RotationAd>;
using LT = F2<wave::RigidTransformMd>;
using LU = F2<wave::RigidTransformQd>;

using Prog = void (*)();
struct Entry {
    int id;
    Prog run;
};
inline int runAll(const std::vector<Entry> &progs) {
    for (const auto &p : progs) {
        g_run = p.id;
        std::printf("RUN %d\n", p.id);
        std::fflush(stdout);
        p.run();
        std::printf("END %d\n", p.id);
    }
    std::printf("DONE checks=%d fails=%d\n", g_checks, g_fails);
    return 0;
}

}  // namespace wv
