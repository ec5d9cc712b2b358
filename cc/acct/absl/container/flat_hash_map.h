// Stand-in: a hash map whose iteration order is decided by the simulation instead of
// by addresses of the process.
#ifndef VERIF_FLAT_HASH_MAP_H_
#define VERIF_FLAT_HASH_MAP_H_
#include <cstdint>
#include <functional>
#include <unordered_map>

#include "absl/algorithm/container.h"
#include "absl/memory/memory.h"

namespace verif_hash {
inline uint64_t order = 0;
template <typename K>
struct Hash {
  size_t operator()(const K& k) const {
    uint64_t x = std::hash<K>()(k) + order;
    if (order == 0) return x;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
  }
};
}  // namespace verif_hash

namespace absl {
template <typename K, typename V, typename... Rest>
using flat_hash_map = std::unordered_map<K, V, verif_hash::Hash<K>>;
}
#endif
