#include "vf.hpp"
#undef __has_include
#include <lru/lru.hpp>
using namespace vf;
namespace drv {
namespace c {
using C = LRU::Cache<K, V, H, E>;
#include "ops.inc"
C make(std::size_t cap, const H& h, const E& e) { return C(cap, h, e); }
C make_default() { return C(); }
C make_iter(std::size_t cap, Range& r, const H& h, const E& e) { return C(cap, r.begin(), r.end(), h, e); }
C make_iter_nocap(Range& r, const H& h, const E& e) { return C(r.begin(), r.end(), h, e); }
C make_crange(std::size_t cap, const Range& r, const H& h, const E& e) { return C(cap, r, h, e); }
C make_lrange(std::size_t cap, Range& r, const H& h, const E& e) { return C(cap, r, h, e); }
C make_rrange(std::size_t cap, Range& r, const H& h, const E& e) { return C(cap, std::move(r), h, e); }
C make_crange_nocap(const Range& r, const H& h, const E& e) { return C(r, h, e); }
C make_lrange_nocap(Range& r, const H& h, const E& e) { return C(r, h, e); }
C make_rrange_nocap(Range& r, const H& h, const E& e) { return C(std::move(r), h, e); }
C make_list(std::size_t cap, std::initializer_list<Pair> l, const H& h, const E& e) { return C(cap, l, h, e); }
C make_list_nocap(std::initializer_list<Pair> l, const H& h, const E& e) { return C(l, h, e); }
void front(const C& c, Obs& o) { o.key = &c.front(); }
void back(const C& c, Obs& o) { o.key = &c.back(); }
}  // namespace c
}  // namespace drv
