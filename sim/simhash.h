// Force-included in front of the library when the seam for the iteration order
// of unordered containers is active.  The order in which an unordered container
// iterates is unspecified; here a seeded salt picks it.  Salt 0 reproduces the
// order of the default hash.
#pragma once
#include <bits/stdc++.h>
#include <cstdint>

namespace simrt {
extern uint64_t g_hash_salt;
}

namespace std {
template<class K>
struct sim_hash {
  uint64_t salt;
  sim_hash() noexcept : salt(simrt::g_hash_salt) {}
  size_t operator()(const K &k) const {
    size_t h = std::hash<K>{}(k);
    if (!salt) return h;
    uint64_t z = h + salt * 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
};
template<
  class K,
  class H = sim_hash<K>,
  class E = equal_to<K>,
  class A = allocator<K>>
using sim_unordered_set = unordered_set<K, H, E, A>;
template<
  class K,
  class V,
  class H = sim_hash<K>,
  class E = equal_to<K>,
  class A = allocator<pair<const K, V>>>
using sim_unordered_map = unordered_map<K, V, H, E, A>;
}  // namespace std

#define unordered_set sim_unordered_set
#define unordered_map sim_unordered_map
