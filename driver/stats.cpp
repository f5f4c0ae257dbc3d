#include "vf.hpp"
#undef __has_include
#include <lru/lru.hpp>
using namespace vf;
namespace drv {
namespace s {
using S = LRU::Statistics<K>;
S make() { return S(); }
S make_c(const K& a, const K& b) { return S(a, b); }
S make_l(K& a, K& b) { return S(a, b); }
S make_r(K& a, K& b) { return S(std::move(a), std::move(b)); }
S make_one(const K& a) { return S(a); }
S make_list(std::initializer_list<K> l) { return S(l); }
S make_range(const std::vector<K>& v) { return S(v); }
S make_iter(std::vector<K>& v) { return S(v.begin(), v.end()); }
void monitor(S& s, const K& k, Obs&) { s.monitor(k); }
void unmonitor(S& s, const K& k, Obs&) { s.unmonitor(k); }
void unmonitor_all(S& s, Obs&) { s.unmonitor_all(); }
void reset_key(S& s, const K& k, Obs&) { s.reset_key(k); }
void reset_all(S& s, Obs&) { s.reset_all(); }
void is_monitoring(const S& s, const K& k, Obs& o) { o.b = s.is_monitoring(k); }
void is_monitoring_keys(const S& s, Obs& o) { o.b = s.is_monitoring_keys(); }
void number(const S& s, Obs& o) { o.n = s.number_of_monitored_keys(); }
void hits_for(const S& s, const K& k, Obs& o) { o.n = s.hits_for(k); }
void misses_for(const S& s, const K& k, Obs& o) { o.n2 = s.misses_for(k); }
void accesses_for(const S& s, const K& k, Obs& o) { o.n3 = s.accesses_for(k); }
void stats_for(const S& s, const K& k, Obs& o) { const auto& t = s.stats_for(k); o.n = t.hits; o.n2 = t.misses; o.n3 = t.accesses(); }
void index(const S& s, const K& k, Obs& o) { const auto& t = s[k]; o.n = t.hits; o.n2 = t.misses; o.n3 = t.accesses(); }
S copy_construct(const S& s) { return S(s); }
S move_construct(S& s) { return S(std::move(s)); }
void copy_assign(S& a, const S& b) { a = b; }
void move_assign(S& a, S& b) { a = std::move(b); }
void swap(S& a, S& b) { using std::swap; swap(a, b); }
using KS = LRU::KeyStatistics;
KS ks_make() { return KS(); }
KS ks_make2(std::size_t h, std::size_t m) { return KS(h, m); }
void ks_reset(KS& k) { k.reset(); }
void ks_read(const KS& t, Obs& o) { o.n = t.hits; o.n2 = t.misses; o.n3 = t.accesses(); }
// readers
void st_totals(const S& s, Obs& o) { o.n = s.total_accesses(); o.n2 = s.total_hits(); o.n3 = s.total_misses(); }
void st_key(const S& s, const K& k, Obs& o) { o.n = s.hits_for(k); o.n2 = s.misses_for(k); o.n3 = s.accesses_for(k); }
void st_has(const S& s, const K& k, Obs& o) { o.b = s.is_monitoring(k); }
void st_sizes(const S& s, Obs& o) { o.n = s.number_of_monitored_keys(); o.b = s.is_monitoring_keys(); }
}  // namespace s
}  // namespace drv
