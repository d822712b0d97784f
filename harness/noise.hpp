// Noise models against the covariances they stand for.
#pragma once
#include "pack.hpp"

namespace wv {

// An expression which can be evaluated once: afterwards its values are others
template <typename V>
auto once(const V &v) {
    const auto n = std::make_shared<int>(0);
    return V::NullaryExpr(v.size(), [v, n](Eigen::Index i) {
        return v[i] * ((*n)++ < v.size() ? 1 : 3);
    });
}

inline void scaled(int step, const std::string &what, const Mat &got, const Mat &want, double unit, double tol) {
    ++g_checks;
    if (!near(want / unit, got / unit, tol))
        bad(step, what + " is " + str(got) + " and should be " + str(want));
}

// cov: entries of the covariance, and inv16: of 16 times its inverse, both for unit scale
template <typename N>
void noise(int step, const char *what, const N &n, int size, const Nums &cov, const Nums &inv16, double scale, double tol) {
    const double s2 = scale * scale;
    const Mat c = filled(size, size, cov) * s2;
    const Mat p = filled(size, size, inv16) / (16 * s2);
    scaled(step, std::string("covariance of ") + what, dense(n.covariance()), c, s2, tol * 100);
    const Mat l = dense(n.inverseSqrtCov());
    // an error of the root is magnified by the largest weight
    const double big = std::max(1.0, p.cwiseAbs().maxCoeff() * s2);
    scaled(step, std::string("inverse of the covariance by the root of ") + what, l.transpose() * l, p, 1 / s2, tol * 100 * big);
    scaled(step, std::string("root, root, covariance of ") + what, l.transpose() * l * c, Mat(Mat::Identity(size, size)), 1,
           tol * 1000 * big);
    const Mat c2 = dense(copy(n).covariance());
    const Mat l2 = dense(copy(n).inverseSqrtCov());
    scaled(step, std::string("covariance of a temporary of ") + what, c2, c, s2, tol * 100);
    scaled(step, std::string("root of a temporary of ") + what, l2, l, 1 / scale, tol);
}
template <typename N, typename M>
void agree(int step, const char *what, const N &n, const M &m, double tol) {
    const Mat c = dense(n.covariance());
    const double s2 = c.cwiseAbs().maxCoeff();
    scaled(step, std::string("covariances of ") + what, dense(m.covariance()), c, s2, tol);
    const Mat l = dense(n.inverseSqrtCov()), k = dense(m.inverseSqrtCov());
    scaled(step, std::string("roots of ") + what, k.transpose() * k, l.transpose() * l,
           (l.transpose() * l).cwiseAbs().maxCoeff(), tol);
}

}  // namespace wv
