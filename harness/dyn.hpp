// Interprets the behaviours of Dynamic.tla on proxies and reference proxies.
#pragma once
#include "store.hpp"

#include <wave/geometry/dynamic.hpp>

namespace wv {
namespace dyn {

#ifdef WV_FRAMED
using LR = wave::RotationMFd<fA, fA>;
using LT = wave::RigidTransformMFd<fA, fA>;
using LV = wave::TranslationFd<fA, fA, fA>;
using LP = wave::PointFd<fA, fA>;
#else
using LR = wave::RotationQd;
using LT = wave::RigidTransformQd;
using LV = wave::Translationd;
using LP = wave::Pointd;
#endif
using LS = wave::Scalar<double>;

inline void put(LR &x, const Nums &n) {
#ifdef WV_FRAMED
    x.value() = m3(n.data());
#else
    x.value() = q4(n.data());
#endif
}
inline void put(LT &x, const Nums &n) {
#ifdef WV_FRAMED
    x.value() = m4(n.data());
#else
    x.rotation() = wave::RotationQd{q4(n.data())};
    x.translation() = wave::Translationd{n[9], n[10], n[11]};
#endif
}
inline void put(LV &x, const Nums &n) {
    x.value() = Eigen::Vector3d{n[0], n[1], n[2]};
}
inline void put(LP &x, const Nums &n) {
    x.value() = Eigen::Vector3d{n[0], n[1], n[2]};
}
inline void put(LS &x, const Nums &n) {
    x.value() = n[0];
}

inline Mat rowMajor(const Mat &m) {
    Mat r(1, m.size());
    for (int i = 0, k = 0; i < m.rows(); ++i)
        for (int j = 0; j < m.cols(); ++j)
            r(0, k++) = m(i, j);
    return r;
}
template <typename L>
Mat numbers(const L &x) {
    const Mat v = valueOf(x);
    if (v.cols() == 4 && v.rows() == 3) {   // rotation by rows, then translation
        Mat r(1, 12);
        r << rowMajor(v.leftCols(3)), v.col(3).transpose();
        return r;
    }
    return rowMajor(v);
}

template <typename L>
struct Kind;
#define WV_KIND(L, CH, D)                   \
    template <>                             \
    struct Kind<L> {                        \
        static constexpr char ch = CH;      \
        static constexpr int dim = D;       \
    };
WV_KIND(LR, 'R', 3)
WV_KIND(LT, 'T', 6)
WV_KIND(LV, 'V', 3)
WV_KIND(LP, 'P', 3)
WV_KIND(LS, 'S', 1)

// What the specification says of an expression
struct Seen {
    bool big = false;
    Nums v;
    std::map<int, Mat> j;
    std::vector<int> leaves;
};
struct Step {
    char c;           // N new, D direct, C copy, S set, L look
    int form = 0, d = 0, x = 0, y = 0, id = 0;
    char k = 0, how = 0;
    std::vector<int> a;
    Nums v;
    Seen see;
};

template <typename L>
struct Bank {
    std::vector<L> var;
    std::vector<wave::Proxy<L>> p;       // numbers 1, 2
    std::vector<wave::RefProxy<L>> r;    // numbers 3, 4
    std::vector<int> id;                 // heap object of each
    std::vector<int> at;                 // targets of the variables
    std::map<int, L> tmp;
};

struct World {
    int run = 0, step = 0;
    Bank<LR> R;
    Bank<LT> T;
    Bank<LV> V;
    Bank<LP> P;
    Bank<LS> S;
    int nv = 0;
    std::vector<std::shared_ptr<void>> keep;

    Bank<LR> &of(Tag<LR>) { return R; }
    Bank<LT> &of(Tag<LT>) { return T; }
    Bank<LV> &of(Tag<LV>) { return V; }
    Bank<LP> &of(Tag<LP>) { return P; }
    Bank<LS> &of(Tag<LS>) { return S; }
    template <typename L>
    Bank<L> &bank() { return of(Tag<L>{}); }
    template <typename F>
    void each(F &&f) {
        f(R);
        f(T);
        f(V);
        f(P);
        f(S);
    }

    // operands in forms
    template <typename L>
    wave::Proxy<L> &p(int i) { return bank<L>().p[i - 1]; }
    template <typename L>
    wave::RefProxy<L> &r(int i) { return bank<L>().r[i - 3]; }
    template <typename L>
    L &v(int i) {
        auto &b = bank<L>();
        for (std::size_t n = 0; n < b.at.size(); ++n)
            if (b.at[n] == i)
                return b.var[n];
        std::abort();
    }
    template <typename L>
    L t(int i) { return bank<L>().tmp.at(i); }

    void fail(const std::string &what) {
        ++g_fails;
        std::printf("FAIL run=%d step=%d %s\n", run, step, what.c_str());
    }
    void near(const std::string &what, const Mat &expected, const Mat &got, double tol = 1e-9) {
        ++g_checks;
        const double scale = 1 + expected.cwiseAbs().maxCoeff();
        if (got.rows() != expected.rows() || got.cols() != expected.cols() ||
            !((got - expected).cwiseAbs().maxCoeff() <= tol * scale))
            fail(what + " expected " + str(expected) + " got " + str(got));
    }
};

template <int Rows, typename J>
Mat orZero(const J &j, int cols) {
    if (j.size() == 0)
        return Mat::Zero(Rows, cols);
    return Mat{j};
}

// Value, and Jacobians with respect to every variable and every register
template <typename L, typename E>
void look(World &w, const E &e, const Seen &see) {
    if (see.big)
        return;
    constexpr int rows = Kind<L>::dim;
    const Mat expected = Eigen::Map<const Eigen::RowVectorXd>(see.v.data(), see.v.size());
    const L value{e.eval()};
    w.near("value", expected, numbers(value));
    auto wanted = [&](int target, int cols) {
        auto it = see.j.find(target);
        return it == see.j.end() ? Mat{Mat::Zero(rows, cols)} : it->second;
    };
    const auto rev = wave::internal::evaluateWithDynamicReverseJacobians(e);
    w.near("value with reverse Jacobians", expected, numbers(L{rev.first}));
    const auto leaves = wave::internal::getLeavesMap(e);
    w.each([&](auto &b) {
        using VL = std::decay_t<decltype(b.var[0])>;
        const std::string k(1, Kind<VL>::ch);
        constexpr int cols = Kind<VL>::dim;
        for (std::size_t n = 0; n < b.var.size(); ++n) {
            const int target = b.at[n];
            const Mat J = wanted(target, cols);
            const std::string name = k + std::to_string(n + 1);
            const VL &x = b.var[n];
            w.near("jacobian by " + name, J, Mat{e.jacobian(x)});
            w.near("dynamic jacobian by " + name, J,
                   orZero<rows>(wave::internal::evaluateDynamicJacobian(e, x), cols));
            const bool occurs = std::find(see.leaves.begin(), see.leaves.end(), target) != see.leaves.end();
            if ((rev.second.count(&x) != 0) != occurs)
                w.fail("reverse Jacobians " + std::string(occurs ? "lack " : "contain ") + name);
            else if (occurs)
                w.near("reverse Jacobian by " + name, J, Mat{rev.second.at(&x)});
            int listed = 0;
            for (const auto &l : leaves)
                listed += l.first == &x && l.second == cols;
            if ((listed != 0) != occurs)
                w.fail("leaves " + std::string(occurs ? "lack " : "contain ") + name);
        }
        for (int n = 1; n <= 4; ++n) {
            const Mat J = wanted(w.nv + b.id[n - 1], cols);
            const std::string name = "proxy " + k + std::to_string(n);
            auto by = [&](const auto &px) {
                w.near("jacobian by " + name, J, Mat{std::get<1>(e.evalWithJacobians(px))});
                w.near("dynamic jacobian by " + name, J,
                       orZero<rows>(wave::internal::evaluateDynamicJacobian(e, px), cols));
            };
            if (n <= 2)
                by(b.p[n - 1]);
            else
                by(b.r[n - 3]);
        }
        // value with several Jacobians at once
        const auto t = e.evalWithJacobians(b.var[0], b.p[0], b.r[1]);
        w.near("value with Jacobians", expected, numbers(L{std::get<0>(t)}));
        w.near("jacobian by first " + k + " together", wanted(b.at[0], cols), Mat{std::get<1>(t)});
        w.near("jacobian by first proxy " + k + " together", wanted(w.nv + b.id[0], cols), Mat{std::get<2>(t)});
        w.near("jacobian by last proxy " + k + " together", wanted(w.nv + b.id[3], cols), Mat{std::get<3>(t)});
        double m = 1 + expected.cwiseAbs().maxCoeff();
        for (auto &kv : see.j)
            m = std::max(m, kv.second.cwiseAbs().maxCoeff());
        if (m < 50) {
            w.near("numerical jacobian by first " + k, wanted(b.at[0], cols),
                   Mat{wave::evaluateNumericalJacobian(e, b.var[0])}, 1e-5 * m);
            w.near("numerical jacobian by proxy " + k, wanted(w.nv + b.id[1], cols),
                   Mat{wave::evaluateNumericalJacobian(e, b.p[1])}, 1e-5 * m);
        }
    });
}

template <typename L, typename F>
void build(World &w, const Step &s, F &&make) {
    auto &b = w.bank<L>();
    switch (s.how) {
        case 'm':
            b.p[s.d - 1] = wave::makeProxy(make());
            break;
        case 'a':
            b.p[s.d - 1] = make();
            break;
        case 'c': {
            const wave::Proxy<L> x = make();
            b.p[s.d - 1] = x;
            break;
        }
        case 'r': {
            using D = decltype(wave::makeDynamic(make()));
            // memory with the alignment of the type
            std::shared_ptr<D> d{new D(wave::makeDynamic(make()))};
            b.r[s.d - 3] = wave::ref(*d);
            w.keep.push_back(d);
            break;
        }
    }
    b.id[s.d - 1] = s.id;
}
template <typename L, bool Direct, typename F>
void act(World &w, const Step &s, F &&make) {
    if (s.c == 'N')
        build<L>(w, s, make);
    else if constexpr (Direct) {
        const auto e = make();
        look<L>(w, e, s.see);
    }
}

using Form = void (*)(World &, const Step &);
std::map<int, Form> &forms();
struct Register {
    Register(int id, Form f) { forms()[id] = f; }
};

#define WV_FORM(ID, L, DIRECT, ...)                                    \
    static void wvform##ID(wv::dyn::World &w, const wv::dyn::Step &s) { \
        auto make = [&] { return __VA_ARGS__; };                       \
        wv::dyn::act<L, DIRECT>(w, s, make);                     \
    }                                                                  \
    static wv::dyn::Register wvreg##ID{ID, wvform##ID};

}  // namespace dyn
}  // namespace wv
