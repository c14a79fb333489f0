// Stand-in for frozen maps (std=model units): lookups are arbitrary.
#pragma once
#include "../hvcstd.hpp"
#include "string.h"
namespace frozen {
template<class K, class V, unsigned long N>
class unordered_map {
    std::pair<K, V> arbitrary{};

  public:
    unordered_map() = default;
    template<class... T>
    constexpr unordered_map(std::initializer_list<std::pair<K, V>>)
    {
    }
    const std::pair<K, V>* find(const K&) const { return &arbitrary; }
    const std::pair<K, V>* begin() const { return &arbitrary; }
    const std::pair<K, V>* end() const { return hvc::any<bool>("frozen miss") ? &arbitrary : nullptr; }
};
}  // namespace frozen
