#pragma once
#include "Kokkos_Core.hpp"
namespace Kokkos
{
template<typename V>
void sort(const V& v)
{
    NFM::sync();
    NFM::withHostAndDevice([&] { std::sort(v.data(), v.data() + v.size()); });
}
template<typename E, typename V>
    requires Impl::IsExec<E>
void sort(const E&, const V& v)
{
    sort(v);
}
}
