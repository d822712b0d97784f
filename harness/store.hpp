// Variables of every representation, for the behaviours of Storage.tla.
#pragma once
#include "wv.hpp"

namespace wv {

#ifdef WV_FRAMED
template <typename T>
using F2 = wave::Framed<T, fA, fA>;
template <typename T>
using F3 = wave::Framed<T, fA, fA, fA>;
#else
template <typename T>
using F2 = T;
template <typename T>
using F3 = T;
#endif

using Nums = std::vector<double>;
using Mat57 = Eigen::Matrix<double, 5, 7>;
using Block33 = Eigen::Block<Mat57, 3, 3>;

inline Eigen::Matrix3d m3(const double *p) {
    Eigen::Matrix3d m;
    m << p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7], p[8];
    return m;
}
inline Eigen::Matrix4d m4(const double *p) {  // rotation by rows, translation
    Eigen::Matrix4d m = Eigen::Matrix4d::Identity();
    m.topLeftCorner<3, 3>() = m3(p);
    m.topRightCorner<3, 1>() = Eigen::Vector3d{p[9], p[10], p[11]};
    return m;
}
// Quaternion of a rotation of the cube, of either sign
inline Eigen::Quaterniond q4(const double *p) {
    static int flip = 0;
    Eigen::Quaterniond q{m3(p)};
    if (++flip % 2)
        q.coeffs() = -q.coeffs();
    return q;
}
inline Eigen::AngleAxisd aa(const double *p) {
    return Eigen::AngleAxisd{m3(p)};
}

// Make a value of each representation
template <typename T>
struct Make;
template <typename T>
struct Tag {};
inline wave::RotationMd make(Tag<wave::RotationMd>, const double *p) {
    return wave::RotationMd{m3(p)};
}
inline wave::RotationQd make(Tag<wave::RotationQd>, const double *p) {
    return wave::RotationQd{q4(p)};
}
inline wave::RotationAd make(Tag<wave::RotationAd>, const double *p) {
    return wave::RotationAd{aa(p)};
}
inline wave::RigidTransformMd make(Tag<wave::RigidTransformMd>, const double *p) {
    return wave::RigidTransformMd{m4(p)};
}
inline wave::RigidTransformQd make(Tag<wave::RigidTransformQd>, const double *p) {
    return wave::RigidTransformQd{q4(p), Eigen::Vector3d{p[9], p[10], p[11]}};
}
template <template <typename> class L>
L<Eigen::Vector3d> make(Tag<L<Eigen::Vector3d>>, const double *p) {
    return L<Eigen::Vector3d>{Eigen::Vector3d{p[0], p[1], p[2]}};
}
inline wave::Twistd make(Tag<wave::Twistd>, const double *p) {
    Eigen::Matrix<double, 6, 1> v;
    v << p[0], p[1], p[2], p[3], p[4], p[5];
    return wave::Twistd{v};
}
inline wave::Scalar<double> make(Tag<wave::Scalar<double>>, const double *p) {
    return wave::Scalar<double>{p[0]};
}
inline double make(Tag<double>, const double *p) {
    return p[0];
}
template <typename T, typename... Fs>
wave::Framed<T, Fs...> make(Tag<wave::Framed<T, Fs...>>, const double *p) {
    return wave::Framed<T, Fs...>{make(Tag<T>{}, p).value()};
}
#ifdef WV_FRAMED
inline F2<wave::RigidTransformQd> make(Tag<F2<wave::RigidTransformQd>>, const double *p) {
    return F2<wave::RigidTransformQd>{q4(p), Eigen::Vector3d{p[9], p[10], p[11]}};
}
#endif
template <typename T>
T temp(Nums n) {
    return make(Tag<T>{}, n.data());
}
template <typename T>
T copy(const T &x) {
    return x;
}
template <typename E>
auto heap(E &&e) {
    return std::make_unique<std::decay_t<E>>(std::forward<E>(e));
}

struct Regs {
    Mem m4_, m5_, m9_, m11_, m13_, m15_, m17_;
    Mat57 m6_;
    F2<wave::RotationMd> v1;
    F2<wave::RotationQd> v2;
    F2<wave::RotationAd> v3;
    F2<wave::MatrixRotation<Map33>> v4;
    F2<wave::QuaternionRotation<MapQ>> v5;
    F2<wave::MatrixRotation<Block33>> v6;
    F2<wave::RigidTransformMd> v7;
    F2<wave::RigidTransformQd> v8;
    F2<wave::MatrixRigidTransform<Map44>> v9;
    F3<wave::Translationd> v10;
    F3<wave::Translation<MapV3>> v11;
    F2<wave::Pointd> v12;
    F2<wave::Point<MapV3>> v13;
    F3<wave::RelativeRotationd> v14;
    F3<wave::RelativeRotation<MapV3>> v15;
    F3<wave::Twistd> v16;
    F3<wave::Twist<MapV6>> v17;
    wave::Scalar<double> v18, v19;
    double v20{}, v21{};

    Regs()
        : m6_{Mat57::Constant(7777.0)},
          v1{Eigen::Matrix3d::Identity()}, v2{Eigen::Quaterniond::Identity()},
          v3{Eigen::AngleAxisd::Identity()},
          v4{Map33{m4_.d + 2}}, v5{MapQ{m5_.d + 2}}, v6{Block33{m6_, 1, 2}},
          v7{Eigen::Matrix4d::Identity()},
          v8{Eigen::Quaterniond::Identity(), Eigen::Vector3d::Zero()},
          v9{Map44{m9_.d + 2}}, v10{Eigen::Vector3d::Zero()}, v11{MapV3{m11_.d + 2}},
          v12{Eigen::Vector3d::Zero()}, v13{MapV3{m13_.d + 2}},
          v14{Eigen::Vector3d::Zero()}, v15{MapV3{m15_.d + 2}},
          v16{Eigen::Matrix<double, 6, 1>::Zero()}, v17{MapV6{m17_.d + 2}}, v18{0.0}, v19{0.0} {}
    Regs(const Regs &) = delete;

    // the values, seen from outside
    Mat get(int i) const {
        switch (i) {
            case 1: return toMat(v1.value());
            case 2: return toMat(v2.value());
            case 3: return toMat(v3.value());
            case 4: return Mat{Map33{const_cast<double *>(m4_.d + 2)}};
            case 5: return toMat(Eigen::Quaterniond{m5_.d[5], m5_.d[2], m5_.d[3], m5_.d[4]});
            case 6: return Mat{m6_.block<3, 3>(1, 2)};
            case 7: return toMat(v7.value());
            case 8: return valueOf(v8);
            case 9: return toMat(Eigen::Matrix4d{Map44{const_cast<double *>(m9_.d + 2)}});
            case 10: return toMat(v10.value());
            case 11: return vec(m11_, 3);
            case 12: return toMat(v12.value());
            case 13: return vec(m13_, 3);
            case 14: return toMat(v14.value());
            case 15: return vec(m15_, 3);
            case 16: return toMat(v16.value());
            case 17: return vec(m17_, 6);
            case 18: return toMat(v18.value());
            case 19: return toMat(v19.value());
            case 20: return Mat::Constant(1, 1, v20);
            case 21: return Mat::Constant(1, 1, v21);
        }
        return Mat{};
    }
    static Mat vec(const Mem &m, int n) {
        Mat x(n, 1);
        for (int i = 0; i < n; ++i)
            x(i) = m.d[2 + i];
        return x;
    }
    // write the memory of variable i, or its value
    void set(int i, const Nums &n) {
        const double *p = n.data();
        switch (i) {
            case 1: v1.value() = m3(p); break;
            case 2: v2.value() = q4(p); break;
            case 3: v3.value() = aa(p); break;
            case 4: Map33{m4_.d + 2} = m3(p); break;
            case 5: MapQ{m5_.d + 2} = q4(p); break;
            case 6: m6_.block<3, 3>(1, 2) = m3(p); break;
            case 7: v7.value() = m4(p); break;
            case 8: v8 = temp<decltype(v8)>(n); break;
            case 9: Map44{m9_.d + 2} = m4(p); break;
            case 10: put(v10.value().data(), n); break;
            case 11: put(m11_.d + 2, n); break;
            case 12: put(v12.value().data(), n); break;
            case 13: put(m13_.d + 2, n); break;
            case 14: put(v14.value().data(), n); break;
            case 15: put(m15_.d + 2, n); break;
            case 16: put(v16.value().data(), n); break;
            case 17: put(m17_.d + 2, n); break;
            case 18: v18.value() = n[0]; break;
            case 19: v19.value() = n[0]; break;
            case 20: v20 = n[0]; break;
            case 21: v21 = n[0]; break;
        }
    }
    static void put(double *d, const Nums &n) {
        for (std::size_t i = 0; i < n.size(); ++i)
            d[i] = n[i];
    }
    // everything around the mapped values is as it was
    bool margins() const {
        bool ok = true;
        auto chk = [&](const Mem &m, int n) {
            for (int i = 0; i < 20; ++i)
                if (i < 2 || i >= 2 + n)
                    ok = ok && m.d[i] == 7777.0;
        };
        chk(m4_, 9);
        chk(m5_, 4);
        chk(m9_, 16);
        chk(m11_, 3);
        chk(m13_, 3);
        chk(m15_, 3);
        chk(m17_, 6);
        for (int r = 0; r < 5; ++r)
            for (int k = 0; k < 7; ++k)
                if (r < 1 || r > 3 || k < 2 || k > 4)
                    ok = ok && m6_(r, k) == 7777.0;
        return ok;
    }
};

inline Mat asMat(char k, const Nums &n) {
    if (k == 'R') {
        return Mat{m3(n.data())};
    }
    if (k == 'T') {
        return Mat{m4(n.data()).topRows(3)};
    }
    Mat x(n.size(), 1);
    for (std::size_t i = 0; i < n.size(); ++i)
        x(i) = n[i];
    return x;
}

// One behaviour: the state which the specification says, followed step by step
struct Run {
    int id;
    Regs &g;
    std::vector<Nums> want;  // empty: not specified
    int step = 0;
    static constexpr const char *kinds = "RRRRRRTTTVVPPWWXXSSDD";

    Run(int id, Regs &g, const std::vector<Nums> &init) : id{id}, g{g}, want{init} {
        for (int i = 1; i <= 21; ++i)
            g.set(i, want[i - 1]);
        compare();
    }
    void report(const std::string &what) {
        ++g_fails;
        std::printf("FAIL shape=%d step=%d %s\n", id, step, what.c_str());
        std::fflush(stdout);
    }
    void compare() {
        for (int i = 1; i <= 21; ++i) {
            if (want[i - 1].empty())
                continue;
            ++g_checks;
            const Mat e = asMat(kinds[i - 1], want[i - 1]);
            const Mat got = g.get(i);
            if (!near(e, got, 1e-9 * (1 + e.cwiseAbs().maxCoeff())))
                report("variable " + std::to_string(i) + " expected " + str(e) + " is " + str(got));
        }
        if (!g.margins())
            report("memory next to a mapped variable changed");
    }
    void begin(int n) {
        step = n;
    }
    // the statement sets variable i (0: none)
    void end() {
        compare();
    }
    void end(int i, Nums v) {
        want[i - 1] = std::move(v);
        compare();
    }
    void lost(int i) {
        want[i - 1].clear();
    }
    template <typename V>
    void value(char k, Nums n, const V &v) {
        ++g_checks;
        const Mat e = asMat(k, n), got = valueOf(v);
        if (!near(e, got, 1e-9 * (1 + e.cwiseAbs().maxCoeff())))
            report("expression expected " + str(e) + " evaluates to " + str(got));
    }
};

using RunFn = void (*)();
inline std::map<int, RunFn> &runs() {
    static std::map<int, RunFn> m;
    return m;
}
struct RegisterRun {
    RegisterRun(int id, RunFn f) {
        runs()[id] = f;
    }
};
inline int runAll(int only) {
    for (auto &r : runs()) {
        if (only && r.first != only)
            continue;
        std::printf("START %d\n", r.first);
        std::fflush(stdout);
        r.second();
        std::printf("SHAPE %d cases=1\n", r.first);
        std::fflush(stdout);
    }
    std::printf("DONE checks=%d fails=%d\n", g_checks, g_fails);
    return 0;
}

}  // namespace wv

#define WV_RUN(ID)                                  \
    static void run_##ID();                         \
    static wv::RegisterRun regrun_##ID{ID, run_##ID}; \
    static void run_##ID()
