#pragma once
#include <type_traits>
namespace tlx {
template <class A, class B>
static inline constexpr auto div_ceil(const A& n, const B& k) -> decltype(n + k) {
    return (n + k - 1) / k;
}
}
