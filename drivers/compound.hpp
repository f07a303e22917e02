// Compound vectors as a user of the library declares them.
#pragma once
#include "leaves.hpp"
#include <wave/geometry/estimation.hpp>

namespace ex {
template <class A = w::Scalar<double>, class B = w::Scalar<double>>
struct Two : w::CompoundVectorBase<Two<A, B>>, w::NaryStorage<Two<A, B>, A, B> {
    using Storage = w::NaryStorage<Two<A, B>, A, B>;
    using Storage::Storage;
    using Storage::operator=;
};
template <class A = w::Translationd, class B = w::Scalar<double>, class C = w::RelativeRotationd>
struct Tri : w::CompoundVectorBase<Tri<A, B, C>>, w::NaryStorage<Tri<A, B, C>, A, B, C> {
    using Storage = w::NaryStorage<Tri<A, B, C>, A, B, C>;
    using Storage::Storage;
    using Storage::operator=;
};
}  // namespace ex
namespace wave { namespace internal {
template <class A, class B>
struct traits<ex::Two<A, B>> : compound_vector_traits_base<ex::Two<A, B>, A, B>, frameable_vector_traits {};
template <class A, class B, class C>
struct traits<ex::Tri<A, B, C>> : compound_vector_traits_base<ex::Tri<A, B, C>, A, B, C>, frameable_vector_traits {};
}}  // namespace wave::internal
