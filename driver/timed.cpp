#include "vf.hpp"
#undef __has_include
#include <lru/lru.hpp>
using namespace vf;
namespace drv {
namespace t {
using D = std::chrono::duration<double, std::milli>;
using C = LRU::TimedCache<K, V, D, H, E>;
#include "ops.inc"
C make(const D& ttl, std::size_t cap, const H& h, const E& e) { return C(ttl, cap, h, e); }
C make_default(const D& ttl) { return C(ttl); }
C make_iter(const D& ttl, std::size_t cap, Range& r, const H& h, const E& e) { return C(ttl, cap, r.begin(), r.end(), h, e); }
C make_iter_nocap(const D& ttl, Range& r, const H& h, const E& e) { return C(ttl, r.begin(), r.end(), h, e); }
C make_crange(const D& ttl, std::size_t cap, const Range& r, const H& h, const E& e) { return C(ttl, cap, r, h, e); }
C make_lrange(const D& ttl, std::size_t cap, Range& r, const H& h, const E& e) { return C(ttl, cap, r, h, e); }
C make_rrange(const D& ttl, std::size_t cap, Range& r, const H& h, const E& e) { return C(ttl, cap, std::move(r), h, e); }
C make_crange_nocap(const D& ttl, const Range& r, const H& h, const E& e) { return C(ttl, r, h, e); }
C make_lrange_nocap(const D& ttl, Range& r, const H& h, const E& e) { return C(ttl, r, h, e); }
C make_rrange_nocap(const D& ttl, Range& r, const H& h, const E& e) { return C(ttl, std::move(r), h, e); }
C make_list(const D& ttl, std::size_t cap, std::initializer_list<Pair> l, const H& h, const E& e) { return C(ttl, cap, l, h, e); }
C make_list_nocap(const D& ttl, std::initializer_list<Pair> l, const H& h, const E& e) { return C(ttl, l, h, e); }
void all_expired(const C& c, Obs& o) { o.b = c.all_expired(); }
void clear_expired(C& c, Obs& o) { o.n = c.clear_expired(); }
void has_expired(const C& c, const K& k, Obs& o) { o.b = c.has_expired(k); }
void has_expired_u(const C& c, const UC& i, Obs& o) { o.b = c.has_expired(i); }
void has_expired_o(const C& c, const OC& i, Obs& o) { o.b = c.has_expired(i); }
}  // namespace t
}  // namespace drv
