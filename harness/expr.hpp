// Checks one expression against the specification, in every way the library
// offers to evaluate and differentiate it.
#pragma once
#include "wv.hpp"

namespace wv {

enum : unsigned {
    VAL = 1,    // plain evaluation
    JAC = 2,    // jacobian(leaf)
    EWJ = 4,    // evalWithJacobians(leaves...), in both orders
    FWD = 8,    // forward by object
    REV = 16,   // reverse, static
    DYN = 32,   // forward, through run-time typing
    DREV = 64,  // reverse, into a map
    NUM = 128,  // numerical
    CONV = 256, // constructed as and assigned to every representation
};

// Position of T in a list of types (references and const removed), or -1
template <typename List, typename T>
struct index_of_type;
template <template <typename...> class List, typename... Ts, typename T>
struct index_of_type<List<Ts...>, T> {
    static constexpr int find() {
        int i = 0, found = -1;
        ((found = found < 0 && std::is_same<wave::tmp::remove_cr_t<Ts>, T>{} ? i : found, ++i), ...);
        return found;
    }
    static constexpr int value = find();
};

// Any matrix, of any precision
template <typename M>
Mat dense(const M &m) {
    using S = typename std::decay_t<M>::Scalar;
    return Eigen::Matrix<S, Eigen::Dynamic, Eigen::Dynamic>{m}.template cast<double>();
}

inline void cmpJac(const Case &c, const char *mode, int i, const Mat &got) {
    if (c.jac[i].size() == 0)
        return;
    cmp(c, mode, "jacobian " + std::to_string(i + 1), c.jac[i], got, c.tolj);
}

//------------------------------------------------------------ conversions
template <typename T>
struct reframe_as {
    static constexpr bool framed = false;
    template <typename Leaf>
    using type = Leaf;
};
template <typename T, typename... Fs>
struct reframe_as<wave::Framed<T, Fs...>> {
    static constexpr bool framed = true;
    template <typename Leaf>
    using type = wave::Framed<Leaf, Fs...>;
};

// Construct L from e, and assign e to an L
template <typename L, typename E>
void convertTo(const Case &c, const E &e, const char *what) {
    const L x{e};
    cmpValue(c, (std::string{"constructed "} + what).c_str(), valueOf(x));
    L y{x};
    if constexpr (std::is_same<std::decay_t<decltype(y.value())>, Eigen::AngleAxisd>{})
        y.value() = Eigen::AngleAxisd{1.0, Eigen::Vector3d::UnitY()};
    y = e;
    cmpValue(c, (std::string{"assigned "} + what).c_str(), valueOf(y));
}
// Assign e to a view of memory, which must change there and nowhere else
template <typename L, typename M, typename E>
void convertToMap(const Case &c, const E &e, const char *what, int size) {
    Mem m;
    L y{M{m.d + 2}};
    y = e;
    cmpValue(c, (std::string{"assigned "} + what).c_str(), valueOf(y));
    for (int i = 0; i < 20; ++i)
        if ((i < 2 || i >= 2 + size) && m.d[i] != 7777.0)
            fail(c, what, "memory next to the mapped value changed");
}
template <typename E>
void conversions(const Case &c, const E &e) {
    using Out = std::decay_t<decltype(e.eval())>;
    using R = reframe_as<Out>;
    const Out out = e.eval();
    auto all = [&](const auto &x) {
        if constexpr (wave::internal::traits<Out>::TangentSize == 3) {
            convertTo<typename R::template type<wave::RotationMd>>(c, x, "rotation matrix");
            convertTo<typename R::template type<wave::RotationQd>>(c, x, "quaternion");
            convertTo<typename R::template type<wave::RotationAd>>(c, x, "angle-axis");
            convertToMap<typename R::template type<wave::MatrixRotation<Map33>>, Map33>(c, x, "mapped rotation matrix", 9);
            convertToMap<typename R::template type<wave::QuaternionRotation<MapQ>>, MapQ>(c, x, "mapped quaternion", 4);
            if constexpr (!R::framed) {
                Eigen::Matrix<double, 5, 6> big = Eigen::Matrix<double, 5, 6>::Constant(7777.0);
                using B = Eigen::Block<Eigen::Matrix<double, 5, 6>, 3, 3>;
                wave::MatrixRotation<B> y{B{big, 1, 2}};
                y = x;
                cmpValue(c, "assigned block", Mat{big.block<3, 3>(1, 2)});
                big.block<3, 3>(1, 2).setConstant(7777.0);
                if (!(big.array() == 7777.0).all())
                    fail(c, "block", "matrix around the block changed");
            }
        } else {
            convertTo<typename R::template type<wave::RigidTransformMd>>(c, x, "transform matrix");
            convertTo<typename R::template type<wave::RigidTransformQd>>(c, x, "compact transform");
            convertToMap<typename R::template type<wave::MatrixRigidTransform<Map44>>, Map44>(c, x, "mapped transform matrix", 16);
        }
    };
    all(e);     // from the expression
    all(out);   // from its value
}

template <unsigned Modes, typename E, typename L>
void checkOne(const Case &c, const E &e, const L &leaf, int i) {
    using namespace wave;
    if (c.amb) {
        return;
    }
    if constexpr ((Modes & JAC) != 0)
        cmpJac(c, "jacobian", i, dense(e.jacobian(leaf)));
    if constexpr ((Modes & FWD) != 0)
        cmpJac(c, "forward", i, dense(internal::evaluateJacobian(e, leaf)));
    if constexpr ((Modes & DYN) != 0)
        cmpJac(c, "dynamic-forward", i, dense(internal::evaluateDynamicJacobian(e, leaf)));
    if constexpr ((Modes & NUM) != 0) {
        if (c.num && c.jac[i].size()) {
            const double m = 1 + c.jac[i].cwiseAbs().maxCoeff();
            cmp(c, "numerical", "jacobian " + std::to_string(i + 1), c.jac[i],
                dense(evaluateNumericalJacobian(e, leaf)), 2e-6 * m * m);
        }
    }
}

template <typename Tuple, std::size_t... Is>
void checkTuple(const Case &c, const char *mode, const Tuple &t, const std::vector<int> &which,
                std::index_sequence<Is...>) {
    cmpValue(c, mode, valueOf(std::get<0>(t)));
    if (!c.amb)
        (cmpJac(c, mode, which[Is], dense(std::get<Is + 1>(t))), ...);
}

template <std::size_t... Is, typename E, typename Refs>
void ewjReversed(const Case &c, const E &e, const Refs &refs, std::index_sequence<Is...>) {
    constexpr std::size_t N = sizeof...(Is);
    checkTuple(c, "evalWithJacobians(reversed order)",
               e.evalWithJacobians(std::get<N - 1 - Is>(refs)...),
               std::vector<int>{static_cast<int>(N - 1 - Is)...},
               std::make_index_sequence<N>{});
}

template <typename Types, typename Result, typename L>
void checkRev(const Case &c, const Result &r, int i) {
    constexpr int k = index_of_type<Types, L>::value;
    static_assert(k >= 0, "variable of a unique-leaf expression is among its leaves");
    if (!c.amb)
        cmpJac(c, "reverse", i, dense(std::get<k + 1>(r)));
}

template <unsigned Modes, typename E, typename... L>
void check(const Case &c, const E &e, const L &... leaf) {
    using namespace wave;
    // value, twice: evaluation has no effect
    if constexpr ((Modes & VAL) != 0) {
        cmpValue(c, "eval", valueOf(e.eval()));
        cmpValue(c, "eval again", valueOf(e.eval()));
    }
    if constexpr ((Modes & CONV) != 0)
        conversions(c, e);
    int i = 0;
    (checkOne<Modes>(c, e, leaf, i++), ...);
    if constexpr ((Modes & EWJ) != 0 && sizeof...(L) > 0) {
        std::vector<int> order;
        for (int k = 0; k < static_cast<int>(sizeof...(L)); ++k)
            order.push_back(k);
        checkTuple(c, "evalWithJacobians", e.evalWithJacobians(leaf...), order,
                   std::make_index_sequence<sizeof...(L)>{});
        if constexpr (sizeof...(L) > 1)
            ewjReversed(c, e, std::tie(leaf...), std::make_index_sequence<sizeof...(L)>{});
    }
    if constexpr ((Modes & REV) != 0) {
        if constexpr (internal::unique_leaves_t<E>{}) {
            using Types = typename internal::unique_leaves_t<E>::type;
            const auto r = e.evalWithJacobians();
            cmpValue(c, "reverse", valueOf(std::get<0>(r)));
            int m = 0;
            (checkRev<Types, decltype(r), L>(c, r, m++), ...);
        }
    }
    if constexpr ((Modes & DREV) != 0) {
        const auto r = internal::evaluateWithDynamicReverseJacobians(e);
        cmpValue(c, "dynamic-reverse", valueOf(r.first));
        const void *ptrs[] = {static_cast<const void *>(&leaf)..., nullptr};
        if (!c.amb)
            for (int k = 0; k < static_cast<int>(sizeof...(L)); ++k) {
                if (c.jac[k].size() == 0)
                    continue;
                if (r.second.count(ptrs[k]) == 0) {
                    fail(c, "dynamic-reverse", "no entry for variable " + std::to_string(k + 1));
                    continue;
                }
                cmpJac(c, "dynamic-reverse", k, dense(r.second.at(ptrs[k])));
            }
    }
}

using ShapeFn = void (*)(const Case &);
inline std::map<int, ShapeFn> &shapes() {
    static std::map<int, ShapeFn> m;
    return m;
}
struct Register {
    Register(int id, ShapeFn f) {
        shapes()[id] = f;
    }
};

inline int runShapes(const char *file) {
    auto cases = readCases(file);
    for (auto &s : shapes()) {
        const int before = g_fails;
        for (auto &c : cases[s.first]) {
            if (g_fails > before + 5)
                break;
            s.second(c);
        }
        std::printf("SHAPE %d cases=%zu\n", s.first, cases[s.first].size());
    }
    std::printf("DONE checks=%d fails=%d\n", g_checks, g_fails);
    return 0;
}

}  // namespace wv

#define WV_SHAPE(ID)                                      \
    static void shape_##ID(const wv::Case &);             \
    static wv::Register reg_##ID{ID, shape_##ID};         \
    static void shape_##ID(const wv::Case &wvcase)
