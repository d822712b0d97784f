// A compound of any number of vectors and scalars, as a user of the library defines one.
#pragma once
#include "prog.hpp"

namespace wv {
template <typename... Ts>
struct Pack : wave::CompoundVectorBase<Pack<Ts...>>, wave::NaryStorage<Pack<Ts...>, Ts...> {
    using Storage = wave::NaryStorage<Pack<Ts...>, Ts...>;
    using Storage::Storage;
    using Storage::operator=;
};
}  // namespace wv

namespace wave {
namespace internal {
template <typename... Ts>
struct traits<wv::Pack<Ts...>> : compound_vector_traits_base<wv::Pack<Ts...>, Ts...>,
                                 frameable_vector_traits {};
}  // namespace internal
}  // namespace wave
