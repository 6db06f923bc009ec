#pragma once
#include <absl/container/flat_hash_map.h>
namespace absl
{
ABSL_NAMESPACE_BEGIN
template <class K, class H = std::hash<K>, class E = std::equal_to<K>, class A = std::allocator<K>>
class flat_hash_set : public std::unordered_set<K, simrt::SaltedHash<H>, E, A>
{
    using Base = std::unordered_set<K, simrt::SaltedHash<H>, E, A>;

public:
    using Base::Base;
    flat_hash_set() = default;
    bool contains(const K& k) const { return this->find(k) != this->end(); }
};
ABSL_NAMESPACE_END
}    // namespace absl
