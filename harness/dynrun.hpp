// Main program of the dynamic check.
#pragma once
#include "dyn.hpp"

namespace wv {
namespace dyn {
std::map<int, Form> &forms() {
    static std::map<int, Form> f;
    return f;
}
inline Nums nums(std::istream &in) {
    int n;
    in >> n;
    Nums v(n);
    for (auto &x : v)
        in >> x;
    return v;
}
inline std::vector<int> ints(std::istream &in) {
    int n;
    in >> n;
    std::vector<int> v(n);
    for (auto &x : v)
        in >> x;
    return v;
}
inline Seen seen(std::istream &in) {
    Seen s;
    in >> s.big;
    s.v = nums(in);
    int nj;
    in >> nj;
    while (nj--) {
        int t;
        in >> t;
        s.j[t] = readMat(in);
    }
    s.leaves = ints(in);
    return s;
}
template <typename L>
void start(World &w, Bank<L> &b) {
    auto first = [&](int n) { return b.tmp.at(n); };
    b.p.push_back(wave::makeProxy(first(4)));
    b.p.push_back(wave::makeProxy(first(8)));
    for (int n = 0; n < 2; ++n) {
        auto &x = b.var[0];
        using D = decltype(wave::makeDynamic(x));
        std::shared_ptr<D> d{new D(wave::makeDynamic(x))};
        b.r.push_back(wave::ref(*d));
        w.keep.push_back(d);
    }
}

inline void execute(World &w, const Step &s) {
    if (s.c == 'N' || s.c == 'D') {
        forms().at(s.form)(w, s);
        return;
    }
    w.each([&](auto &b) {
        using L = std::decay_t<decltype(b.var[0])>;
        if (s.c == 'S') {
            for (std::size_t n = 0; n < b.at.size(); ++n)
                if (b.at[n] == s.d)
                    put(b.var[n], s.v);
        } else if (s.k == Kind<L>::ch) {
            if (s.c == 'C' && s.x <= 2) {
                auto &x = b.p[s.x - 1];
                auto &y = b.p[s.y - 1];
                if (s.how == 'a')
                    x = y;
                else if (s.how == 'm') {
                    wave::Proxy<L> c{y};
                    x = std::move(c);
                } else
                    std::swap(x, y);
            } else if (s.c == 'C') {
                b.r[s.x - 3] = b.r[s.y - 3];
            }
            if (s.c == 'C') {
                const int old = b.id[s.x - 1];
                b.id[s.x - 1] = b.id[s.y - 1];
                if (s.how == 's')
                    b.id[s.y - 1] = old;
            }
            if (s.c == 'L') {
                if (s.d <= 2)
                    look<L>(w, b.p[s.d - 1], s.see);
                else
                    look<L>(w, b.r[s.d - 3], s.see);
                // the same object is the same expression
                for (int i = 0; i < 4; ++i)
                    for (int j = 0; j < 4; ++j) {
                        if ((i < 2) != (j < 2))
                            continue;
                        const bool got = i < 2 ? isSame(b.p[i], b.p[j]) : isSame(b.r[i - 2], b.r[j - 2]);
                        if (got != (b.id[i] == b.id[j]))
                            w.fail("isSame of proxies " + std::to_string(i + 1) + " and " + std::to_string(j + 1));
                    }
            }
        }
    });
}

inline int runFile(const char *file) {
    std::ifstream in{file};
    std::string tag;
    std::unique_ptr<World> w;
    while (in >> tag) {
        if (tag == "B") {
            w.reset(new World);
            in >> w->run;
            std::printf("RUN %d\n", w->run);
            std::fflush(stdout);
            in >> w->nv;
            w->each([](auto &b) {
                b.var.reserve(4);
                b.id.resize(4);
            });
            for (int i = 1; i <= w->nv; ++i) {
                char k;
                in >> k;
                const Nums v = nums(in);
                w->each([&](auto &b) {
                    using L = std::decay_t<decltype(b.var[0])>;
                    if (k == Kind<L>::ch) {
                        b.var.emplace_back();
                        put(b.var.back(), v);
                        b.at.push_back(i);
                    }
                });
            }
            int nt;
            in >> nt;
            while (nt--) {
                char k;
                int n;
                in >> k >> n;
                const Nums v = nums(in);
                w->each([&](auto &b) {
                    using L = std::decay_t<decltype(b.var[0])>;
                    if (k == Kind<L>::ch)
                        put(b.tmp[n], v);
                });
            }
            int base = 0;
            w->each([&](auto &b) {
                start(*w, b);
                for (int i = 0; i < 4; ++i)
                    b.id[i] = base + i + 1;
                base += 4;
            });
            continue;
        }
        Step s;
        s.c = tag[0];
        ++w->step;
        switch (s.c) {
            case 'N': in >> s.form >> s.k >> s.d >> s.how >> s.id; s.a = ints(in); break;
            case 'D': in >> s.form >> s.k; s.a = ints(in); s.see = seen(in); break;
            case 'C': in >> s.k >> s.x >> s.y >> s.how; break;
            case 'S': in >> s.d; s.v = nums(in); break;
            case 'L': in >> s.k >> s.d; s.see = seen(in); break;
            case 'Z': std::printf("END %d\n", w->run); continue;
            default: std::exit(3);
        }
        execute(*w, s);
    }
    std::printf("DONE checks=%d fails=%d\n", g_checks, g_fails);
    return 0;
}
}  // namespace dyn
}  // namespace wv
int main(int, char **argv) {
    return wv::dyn::runFile(argv[1]);
}
