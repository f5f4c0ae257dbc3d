// Every member of every public class, with key and value types that can only be copied, hashed and compared for equality.
#include PRELUDE
#include <lru/lru.hpp>
#include <string>
#include <vector>
struct K {
  explicit K(int);
  K(const K&);
  K& operator=(const K&);
  ~K();
};
bool operator==(const K&, const K&);
struct V {
  explicit V(int);
  V(const V&);
  V& operator=(const V&);
  ~V();
};
bool operator==(const V&, const V&);
namespace std {
template <>
struct hash<K> {
  size_t operator()(const K&) const;
};
}
template class LRU::Cache<K, V>;
template class LRU::TimedCache<K, V>;
template class LRU::TimedCache<K, V, std::chrono::seconds>;
template class LRU::Statistics<K>;
template class LRU::Cache<int, std::string>;
template class LRU::Cache<std::string, V>;
#include "members.inc"
