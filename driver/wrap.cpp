#include "vf.hpp"
#undef __has_include
#include <lru/lru.hpp>
using namespace vf;
namespace vf {
// a function to be wrapped; it changes an lvalue and takes an rvalue it is called with
struct F { F(const F&); F& operator=(const F&); ~F(); V operator()(const K&) const; V operator()(K&) const; V operator()(K&&) const; V operator()(const K&, const K&) const; };
}
namespace drv {
namespace w {
auto make(F& f, std::size_t n) { return LRU::wrap(f, n); }
using W = decltype(make(std::declval<F&>(), 0));
std::tuple<K, K> tup2(const K& a, const K& b) { return std::tuple<K, K>(a, b); }
std::size_t hash2(const std::tuple<K, K>& t) { return std::hash<std::tuple<K, K>>()(t); }
V call_c(W& w, const K& k) { return w(k); }
V call_l(W& w, K& k) { return w(k); }
V call_r(W& w, K& k) { return w(std::move(k)); }
V call_two(W& w, const K& a, const K& b) { return w(a, b); }
W copy(const W& w) { return w; }
W move(W& w) { return std::move(w); }
void seen(const LRU::Cache<std::tuple<K>, V>& c, Obs& o) { o.n = c.size(); o.n2 = c.capacity(); }
}  // namespace w
namespace x {
using D = std::chrono::duration<double, std::milli>;
auto make(F& f, D& d, std::size_t n) { return LRU::timed_wrap(f, d, n); }
using W = decltype(make(std::declval<F&>(), std::declval<D&>(), 0));
V call_c(W& w, const K& k) { return w(k); }
V call_l(W& w, K& k) { return w(k); }
V call_r(W& w, K& k) { return w(std::move(k)); }
V call_two(W& w, const K& a, const K& b) { return w(a, b); }
W copy(const W& w) { return w; }
W move(W& w) { return std::move(w); }
void seen(const LRU::TimedCache<std::tuple<K>, V>& c, Obs& o) { o.n = c.size(); o.n2 = c.capacity(); }
}  // namespace x
}  // namespace drv
