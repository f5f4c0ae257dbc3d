// Uses of every member template, iterator operation, conversion and comparison. C: cache of K and V.
using Pair = std::pair<K, V>;
template <class I>
void it_access(I& i) {
  (void)*i; (void)i->key(); (void)i->value(); (void)i->first; (void)i->second;
  (void)i.entry(); (void)i.key(); (void)i.value();
}
template <class I>
void it_forward(I& i) {
  ++i; i++;
  I a(i); I b(std::move(a)); a = b; a = std::move(b);
  a.swap(b);
  using std::swap;
  swap(a, b);
  it_access(i);
}
template <class I>
void it_both(I& i) { it_forward(i); --i; i--; }
template <class I, class J>
void it_eq(const I& i, const J& j) { (void)(i == j); (void)(i != j); (void)(j == i); (void)(j != i); }
template <class C>
void iterators(C& c, const C& k) {
  typename C::unordered_iterator u = c.unordered_begin();
  typename C::unordered_const_iterator uc = k.unordered_begin();
  typename C::ordered_iterator o = c.ordered_begin();
  typename C::ordered_const_iterator oc = k.ordered_begin();
  it_forward(u); it_forward(uc); it_both(o); it_both(oc);
  it_eq(u, u); it_eq(u, uc); it_eq(u, o); it_eq(u, oc); it_eq(uc, uc); it_eq(uc, o); it_eq(uc, oc); it_eq(o, o); it_eq(o, oc); it_eq(oc, oc);
  u = c.begin(); u = c.end(); u = c.unordered_end();
  uc = k.begin(); uc = k.end(); uc = k.cbegin(); uc = k.cend(); uc = k.unordered_end(); uc = k.unordered_cbegin(); uc = k.unordered_cend();
  o = c.ordered_end(); oc = k.ordered_end(); oc = k.ordered_cbegin(); oc = k.ordered_cend();
  typename C::unordered_const_iterator uc2(u), uc3 = u; uc2 = u;
  typename C::ordered_const_iterator oc2(o), oc3 = o; oc2 = o;
  typename C::ordered_iterator o2(u);
  typename C::ordered_const_iterator oc4(u), oc5(uc);
  typename C::ordered_iterator o3(std::move(u));
  typename C::ordered_const_iterator oc6(std::move(uc)), oc7(std::move(o));
  u = c.begin(); uc = k.begin(); o = c.ordered_begin(); oc = k.ordered_begin();
  (void)k.is_valid(u); (void)k.is_valid(uc); (void)k.is_valid(o); (void)k.is_valid(oc);
  k.throw_if_invalid(u); k.throw_if_invalid(uc); k.throw_if_invalid(o); k.throw_if_invalid(oc);
  c.erase(u); c.erase(uc); c.erase(o); c.erase(oc);
  for (auto& e : c) (void)e.key();
  for (auto& e : k) (void)e.value();
}
template <class C>
void single(C& c, const C& k, const K& key, const V& value) {
  auto r = c.insert(key, value);
  (void)r.was_inserted(); (void)static_cast<bool>(r); it_access(*new auto(r.iterator()));
  c.emplace(key, value); c.emplace(K(key), V(value)); c.emplace(1, 2);
  c.emplace(std::piecewise_construct, std::forward_as_tuple(1), std::forward_as_tuple(2));
  c.emplace(std::piecewise_construct, std::make_tuple(key), std::make_tuple(value));
  (void)c.contains(key); (void)k.contains(key);
  (void)c.find(key); (void)k.find(key);
  (void)c.lookup(key); (void)k.lookup(key);
  (void)c[key]; (void)k[key];
  (void)c.erase(key);
  c.clear(); c.shrink(1); c.capacity(2);
  (void)k.size(); (void)k.capacity(); (void)k.space_left(); (void)k.is_full(); (void)k.is_empty();
  (void)k.hash_function(); (void)k.key_equal();
  (void)(k == k); (void)(k != k);
  (void)c.is_monitoring(); c.monitor(); c.monitor(key); c.monitor(key, key); c.monitor(std::make_shared<LRU::Statistics<K>>());
  std::shared_ptr<LRU::Statistics<K>> s = c.shared_stats(); c.monitor(s); (void)k.shared_stats();
  (void)c.stats(); (void)k.stats(); c.stop_monitoring();
  c.hit_callback([](const K&, const V&) {}); c.miss_callback([](const K&) {}); c.access_callback([](const K&, bool) {});
  std::function<void(const K&, const V&)> h; std::function<void(const K&)> m; std::function<void(const K&, bool)> a;
  c.hit_callback(h); c.miss_callback(m); c.access_callback(a);
  (void)k.hit_callbacks(); (void)k.miss_callbacks(); (void)k.access_callbacks();
  c.clear_hit_callbacks(); c.clear_miss_callbacks(); c.clear_access_callbacks(); c.clear_all_callbacks();
}
template <class C>
void ranges(C& c, std::vector<Pair>& v, const std::vector<Pair>& w, std::initializer_list<Pair> l) {
  c.insert(v); c.insert(w); c.insert(std::move(v)); c.insert(v.begin(), v.end()); c.insert(l);
  c = v; c = w; c = std::move(v); c = l;
}
template <class C>
void whole(C& c, const C& k) {
  C a(k), b(c), d(std::move(c));
  a = k; a = b; a = std::move(b);
  a.swap(d);
  using std::swap;
  swap(a, d);
}
void caches(std::vector<Pair>& v, const std::vector<Pair>& w, std::initializer_list<Pair> l, std::chrono::milliseconds t) {
  using C = LRU::Cache<K, V>;
  using T = LRU::TimedCache<K, V>;
  C c, c1(1), c2(v), c3(w), c4(1, v), c5(1, w), c6(v.begin(), v.end()), c7(1, v.begin(), v.end()), c8(l), c9(1, l), ca(std::move(v)), cb(1, std::move(v));
  T s(t), t1(t, 1), t2(t, v), t3(t, w), t4(t, 1, v), t5(t, 1, w), t6(t, v.begin(), v.end()), t7(t, 1, v.begin(), v.end()), t8(t, l), t9(t, 1, l),
      ta(t, std::move(v)), tb(t, 1, std::move(v)), tc(std::chrono::seconds(1)), td(std::chrono::hours(1), 4);
  std::hash<K> h; std::equal_to<K> e;
  C d1(1, h), d2(1, h, e), d3(1, v, h, e), d4(v, h, e), d5(1, v.begin(), v.end(), h, e), d6(1, l, h, e), d7(l, h, e);
  T f1(t, 1, h), f2(t, 1, h, e), f3(t, 1, v, h, e), f4(t, v, h, e), f5(t, 1, v.begin(), v.end(), h, e), f6(t, 1, l, h, e), f7(t, l, h, e);
  iterators(c, c); iterators(s, s);
  single(c, c, w[0].first, w[0].second); single(s, s, w[0].first, w[0].second);
  ranges(c, v, w, l); ranges(s, v, w, l);
  whole(c, c); whole(s, s);
  (void)c.front(); (void)c.back();
  (void)s.has_expired(w[0].first); (void)s.all_expired(); (void)s.clear_expired();
  (void)s.has_expired(s.begin()); (void)s.has_expired(s.ordered_begin());
  const T& ks = s;
  (void)ks.has_expired(ks.begin()); (void)ks.has_expired(ks.ordered_begin());
}
void statistics(const K& k) {
  LRU::Statistics<K> s, t(k, k), u{k, k};
  std::vector<K> v;
  LRU::Statistics<K> w(v), x(v.begin(), v.end());
  (void)s.total_accesses(); (void)s.total_hits(); (void)s.total_misses(); (void)s.hit_rate(); (void)s.miss_rate();
  (void)s.hits_for(k); (void)s.misses_for(k); (void)s.accesses_for(k); (void)s.stats_for(k); (void)s[k];
  s.monitor(k); s.unmonitor(k); s.unmonitor_all(); (void)s.is_monitoring(k); (void)s.number_of_monitored_keys(); (void)s.is_monitoring_keys();
  s.reset_key(k); s.reset_all();
  LRU::KeyStatistics ks = s[k];
  (void)ks.accesses(); (void)ks.hits; (void)ks.misses; ks.reset();
  LRU::Statistics<K> y(s);
  y = s;
}
V one(const K& k);
void wrapped(const K& k) {
  auto f = LRU::wrap(one);
  auto g = LRU::wrap([](int i) { return i; }, 3);
  (void)f(k); (void)g(1);
  auto t = LRU::timed_wrap(one, std::chrono::seconds(1));
  auto u = LRU::timed_wrap([](int i, std::string) { return i; }, std::chrono::milliseconds(1), 3);
  (void)t(k); (void)u(1, "x"); (void)u(1, std::string());
}
