// Deterministic stand-in: iteration order depends only on the keys' hashes, the insertion history
// and the run's seed (absl randomises per process).
#pragma once
#include <absl/base/config.h>
#include <cstdint>
#include <functional>
#include <string>
#include <string_view>
#include <unordered_map>
#include <unordered_set>

namespace simrt
{
uint64_t hash_salt() noexcept;
template <class H>
struct SaltedHash : H
{
    SaltedHash() = default;
    explicit SaltedHash(const H& h) : H(h) {}
    template <class K>
    size_t operator()(const K& k) const
    {
        uint64_t x = static_cast<uint64_t>(H::operator()(k)) ^ hash_salt();
        x ^= x >> 33;
        x *= 0xff51afd7ed558ccdULL;
        x ^= x >> 33;
        return static_cast<size_t>(x);
    }
};
}    // namespace simrt
namespace absl
{
ABSL_NAMESPACE_BEGIN
template <class K, class V, class H = std::hash<K>, class E = std::equal_to<K>, class A = std::allocator<std::pair<const K, V>>>
class flat_hash_map : public std::unordered_map<K, V, simrt::SaltedHash<H>, E, A>
{
    using Base = std::unordered_map<K, V, simrt::SaltedHash<H>, E, A>;

public:
    using Base::Base;
    flat_hash_map() = default;
    bool contains(const K& k) const { return this->find(k) != this->end(); }
    using Base::find;
    using Base::at;
    using Base::count;
    using Base::erase;
    void erase(typename Base::const_iterator it) { Base::erase(it); }
    void erase(typename Base::iterator it) { Base::erase(it); }
};
template <class K, class V, class H = std::hash<K>, class E = std::equal_to<K>, class A = std::allocator<std::pair<const K, V>>>
using node_hash_map = flat_hash_map<K, V, H, E, A>;
ABSL_NAMESPACE_END
}    // namespace absl
