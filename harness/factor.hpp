// Factors and their variables.
#pragma once
#include "pack.hpp"

namespace wv {

// The values stored in a variable, and the numbers its base class shows
template <typename L>
void stored(int step, const char *what, wave::FactorVariable<L> &v, const Nums &want) {
    const int n = static_cast<int>(want.size());
    ck(step, what, column(v.value()), n, want);
    const auto &c = v;
    ck(step, what, column(c.value()), n, want);
    wave::FactorVariableBase &b = v;
    ckb(step, "data() is the value's", b.data() == v.value().value().data(), true);
    ckb(step, "size() is the value's", b.size() == static_cast<std::size_t>(v.value().value().size()), true);
}

// The factor lists its variables, in their order
inline void listed(int step, const char *what, const wave::FactorBase &f, const std::vector<wave::FactorVariableBase *> &want) {
    ++g_checks;
    std::vector<wave::FactorVariableBase *> got;
    for (const auto &v : f)
        got.push_back(v.get());
    if (got != want || f.size() != want.size())
        bad(step, std::string(what) + " lists other variables");
    ckb(step, "isPerfectPrior", f.isPerfectPrior(), false);
}

// Residual r is the noise's root times d, and its square is w
template <typename R, typename N>
void residual(int step, const char *what, const R &r, const N &noise, const Nums &d, double w) {
    const int n = static_cast<int>(d.size());
    const Mat l = dense(noise.inverseSqrtCov());
    const Mat x = l * filled(n, 1, d);
    ck(step, what, dense(r), n, Nums(x.data(), x.data() + n));
    ck(step, (std::string("squared norm of ") + what).c_str(), dense(r).transpose() * dense(r), 1, Nums{w}, 1e-8 * (1 + w));
}

}  // namespace wv
