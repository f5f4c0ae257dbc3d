// Client operations, one function per public operation. C is the cache type.
using U = C::unordered_iterator;
using UC = C::unordered_const_iterator;
using O = C::ordered_iterator;
using OC = C::ordered_const_iterator;
using S = LRU::Statistics<K>;
using SP = std::shared_ptr<S>;
using Pair = std::pair<K, V>;
using Range = std::vector<Pair>;
using HitCB = std::function<void(const K&, const V&)>;
using MissCB = std::function<void(const K&)>;
using AccCB = std::function<void(const K&, bool)>;

// --- insertion
template <class R>
void obs_ins(C& c, R& r, Obs& o) {
  o.b = r.was_inserted();
  o.b2 = static_cast<bool>(r);
  auto it = r.iterator();
  o.end = it == c.unordered_end();
  if (!o.end) { o.key = &(*it).key(); o.val = &(*it).value(); }
}
void insert(C& c, const K& k, const V& v, Obs& o) { auto r = c.insert(k, v); obs_ins(c, r, o); }
void emplace_rr(C& c, K& k, V& v, Obs& o) { auto r = c.emplace(std::move(k), std::move(v)); obs_ins(c, r, o); }
void emplace_ll(C& c, K& k, V& v, Obs& o) { auto r = c.emplace(k, v); obs_ins(c, r, o); }
void emplace_cc(C& c, const K& k, const V& v, Obs& o) { auto r = c.emplace(k, v); obs_ins(c, r, o); }
void emplace_xl(C& c, X& x, Y& y, Obs& o) { auto r = c.emplace(x, y); obs_ins(c, r, o); }
void emplace_xr(C& c, X& x, Y& y, Obs& o) { auto r = c.emplace(std::move(x), std::move(y)); obs_ins(c, r, o); }
void emplace_lr(C& c, const K& k, V& v, Obs& o) { auto r = c.emplace(k, std::move(v)); obs_ins(c, r, o); }
void emplace_rl(C& c, K& k, const V& v, Obs& o) { auto r = c.emplace(std::move(k), v); obs_ins(c, r, o); }
void emplace_pw(C& c, X& x, Y& y, X& vx, Y& vy, Obs& o) {
  auto r = c.emplace(std::piecewise_construct, std::forward_as_tuple(x, std::move(y)), std::forward_as_tuple(std::move(vx), vy));
  obs_ins(c, r, o);
}

// --- lookup
template <class I, class CC>
void obs_it(CC& c, I it, Obs& o) {
  o.end = it == c.unordered_end();
  if (!o.end) { o.key = &(*it).key(); o.val = &(*it).value(); }
}
void find(C& c, const K& k, Obs& o) { auto it = c.find(k); obs_it(c, it, o); }
void find_const(const C& c, const K& k, Obs& o) { auto it = c.find(k); obs_it(c, it, o); }
void contains(const C& c, const K& k, Obs& o) { o.b = c.contains(k); }
void lookup(C& c, const K& k, Obs& o) { V& v = c.lookup(k); o.val = &v; }
void lookup_const(const C& c, const K& k, Obs& o) { const V& v = c.lookup(k); o.val = &v; }
void index(C& c, const K& k, Obs& o) { V& v = c[k]; o.val = &v; }
void index_const(const C& c, const K& k, Obs& o) { const V& v = c[k]; o.val = &v; }
void contains_lookup(C& c, const K& k, Obs& o) { o.b = c.contains(k); if (o.b) { V& v = c.lookup(k); o.val = &v; } }

// --- erasure
void erase(C& c, const K& k, Obs& o) { o.b = c.erase(k); }
void erase_u(C& c, U& it, Obs&) { c.erase(it); }
void erase_uc(C& c, UC& it, Obs&) { c.erase(it); }
void erase_o(C& c, O& it, Obs&) { c.erase(it); }
void erase_oc(C& c, OC& it, Obs&) { c.erase(it); }
void clear(C& c, Obs&) { c.clear(); }
void shrink(C& c, std::size_t n, Obs&) { c.shrink(n); }
void set_capacity(C& c, std::size_t n, Obs&) { c.capacity(n); }
void sizes(const C& c, Obs& o) {
  o.n = c.size();
  o.n2 = c.capacity();
  o.n3 = c.space_left();
  o.b = c.is_full();
  o.b2 = c.is_empty();
}

// --- functors
void functors(const C& c, H& h, E& e, Obs&) {
  h = c.hash_function();
  e = c.key_equal();
}

// --- statistics and callbacks
void monitor_l(C& c, const SP& s, Obs&) { c.monitor(s); }
void monitor_r(C& c, SP& s, Obs&) { c.monitor(std::move(s)); }
void monitor_none(C& c, Obs&) { c.monitor(); }
void monitor_key(C& c, const K& k, Obs&) { c.monitor(k); }
void stop_monitoring(C& c, Obs&) { c.stop_monitoring(); }
void is_monitoring(const C& c, Obs& o) { o.b = c.is_monitoring(); }
void stats(C& c, Obs& o) { o.p = &c.stats(); }
void stats_const(const C& c, Obs& o) { o.p = &c.stats(); }
void shared_stats(C& c, Obs& o) { o.p = c.shared_stats().get(); }
void shared_stats_const(const C& c, Obs& o) { o.p = c.shared_stats().get(); }
void hit_cb_f(C& c, const FH& f, Obs&) { c.hit_callback(f); }
void hit_cb_l(C& c, HitCB& f, Obs&) { c.hit_callback(f); }
void hit_cb_r(C& c, HitCB& f, Obs&) { c.hit_callback(std::move(f)); }
void miss_cb_f(C& c, const FM& f, Obs&) { c.miss_callback(f); }
void miss_cb_l(C& c, MissCB& f, Obs&) { c.miss_callback(f); }
void acc_cb_f(C& c, const FA& f, Obs&) { c.access_callback(f); }
void acc_cb_l(C& c, AccCB& f, Obs&) { c.access_callback(f); }
void clear_hit_cb(C& c, Obs&) { c.clear_hit_callbacks(); }
void clear_miss_cb(C& c, Obs&) { c.clear_miss_callbacks(); }
void clear_acc_cb(C& c, Obs&) { c.clear_access_callbacks(); }
void clear_all_cb(C& c, Obs&) { c.clear_all_callbacks(); }
void callbacks(const C& c, Obs& o) {
  o.n = c.hit_callbacks().size();
  o.n2 = c.miss_callbacks().size();
  o.n3 = c.access_callbacks().size();
}
// readers used to compare the recorded statistics
void st_totals(const S& s, Obs& o) { o.n = s.total_accesses(); o.n2 = s.total_hits(); o.n3 = s.total_misses(); }
void st_key(const S& s, const K& k, Obs& o) { o.n = s.hits_for(k); o.n2 = s.misses_for(k); o.n3 = s.accesses_for(k); }
void st_has(const S& s, const K& k, Obs& o) { o.b = s.is_monitoring(k); }

// --- whole caches
C copy_construct(const C& a) { return C(a); }
C copy_construct_nc(C& a) { return C(a); }
C move_construct(C& a) { return C(std::move(a)); }
void copy_assign(C& a, const C& b, Obs&) { a = b; }
void copy_assign_nc(C& a, C& b, Obs&) { a = b; }
void move_assign(C& a, C& b, Obs&) { a = std::move(b); }
void swap_m(C& a, C& b, Obs&) { a.swap(b); }
void swap_f(C& a, C& b, Obs&) { using std::swap; swap(a, b); }
void equal(const C& a, const C& b, Obs& o) { o.b = a == b; o.b2 = a != b; }

// --- ranges
void insert_iter(C& c, Range& r, Obs& o) { o.n = c.insert(r.begin(), r.end()); }
void insert_lrange(C& c, Range& r, Obs& o) { o.n = c.insert(r); }
void insert_crange(C& c, const Range& r, Obs& o) { o.n = c.insert(r); }
void insert_rrange(C& c, Range& r, Obs& o) { o.n = c.insert(std::move(r)); }
void insert_list(C& c, std::initializer_list<Pair> l, Obs& o) { o.n = c.insert(l); }
void assign_lrange(C& c, Range& r, Obs&) { c = r; }
void assign_crange(C& c, const Range& r, Obs&) { c = r; }
void assign_rrange(C& c, Range& r, Obs&) { c = std::move(r); }
void assign_list(C& c, std::initializer_list<Pair> l, Obs&) { c = l; }

// --- iterators
U u_begin(C& c) { return c.unordered_begin(); }
U u_end(C& c) { return c.unordered_end(); }
U u_begin2(C& c) { return c.begin(); }
U u_end2(C& c) { return c.end(); }
UC uc_begin(const C& c) { return c.unordered_begin(); }
UC uc_end(const C& c) { return c.unordered_end(); }
UC uc_begin2(const C& c) { return c.begin(); }
UC uc_end2(const C& c) { return c.end(); }
UC uc_begin3(const C& c) { return c.cbegin(); }
UC uc_end3(const C& c) { return c.cend(); }
UC uc_begin4(const C& c) { return c.unordered_cbegin(); }
UC uc_end4(const C& c) { return c.unordered_cend(); }
O o_begin(C& c) { return c.ordered_begin(); }
O o_end(C& c) { return c.ordered_end(); }
OC oc_begin(const C& c) { return c.ordered_begin(); }
OC oc_end(const C& c) { return c.ordered_end(); }
OC oc_begin2(const C& c) { return c.ordered_cbegin(); }
OC oc_end2(const C& c) { return c.ordered_cend(); }

#define ITER_OPS(P, I)                                                          \
  void P##_deref(I& i, Obs& o) { auto& e = *i; o.key = &e.key(); o.val = &e.value(); } \
  void P##_arrow(I& i, Obs& o) { o.key = &i->key(); o.val = &i->value(); }          \
  void P##_entry(I& i, Obs& o) { auto& e = i.entry(); o.key = &e.key(); o.val = &e.value(); } \
  void P##_key(I& i, Obs& o) { o.key = &i.key(); }                                \
  void P##_value(I& i, Obs& o) { o.val = &i.value(); }                            \
  void P##_inc(I& i, Obs&) { ++i; }                                               \
  I P##_incp(I& i) { return i++; }                                                \
  I P##_copy(const I& i) { return i; }                                            \
  I P##_copy_nc(I& i) { return i; }                                               \
  I P##_move(I& i) { return std::move(i); }                                       \
  void P##_assign(I& i, const I& j, Obs&) { i = j; }                              \
  void P##_massign(I& i, I& j, Obs&) { i = std::move(j); }                        \
  void P##_swap(I& i, I& j, Obs&) { i.swap(j); }                                  \
  void P##_swapf(I& i, I& j, Obs&) { using std::swap; swap(i, j); }               \
  void P##_valid(const C& c, const I& i, Obs& o) { o.b = c.is_valid(i); }         \
  void P##_tii(const C& c, const I& i, Obs& o) { c.throw_if_invalid(i); }
ITER_OPS(u, U)
ITER_OPS(uc, UC)
ITER_OPS(o, O)
ITER_OPS(oc, OC)
void o_dec(O& i, Obs&) { --i; }
O o_decp(O& i) { return i--; }
void oc_dec(OC& i, Obs&) { --i; }
OC oc_decp(OC& i) { return i--; }
UC u_to_uc(const U& i) { return UC(i); }
UC u_to_uc_m(U& i) { return UC(std::move(i)); }
OC o_to_oc(const O& i) { return OC(i); }
OC o_to_oc_m(O& i) { return OC(std::move(i)); }
O u_to_o(const U& i) { return O(i); }
O u_to_o_m(U& i) { return O(std::move(i)); }
OC u_to_oc(const U& i) { return OC(i); }
OC u_to_oc_m(U& i) { return OC(std::move(i)); }
OC uc_to_oc(const UC& i) { return OC(i); }
OC uc_to_oc_m(UC& i) { return OC(std::move(i)); }
void uc_assign_u(UC& i, const U& j, Obs&) { i = j; }
void oc_assign_o(OC& i, const O& j, Obs&) { i = j; }
void o_assign_u(O& i, const U& j, Obs&) { i = O(j); }
void oc_assign_uc(OC& i, const UC& j, Obs&) { i = OC(j); }
#define EQ(A_, I_, B_, J_) void eq_##A_##_##B_(const I_& i, const J_& j, Obs& o) { o.b = i == j; o.b2 = i != j; }
EQ(u, U, u, U)
EQ(u, U, uc, UC)
EQ(u, U, o, O)
EQ(u, U, oc, OC)
EQ(uc, UC, u, U)
EQ(uc, UC, uc, UC)
EQ(uc, UC, o, O)
EQ(uc, UC, oc, OC)
EQ(o, O, u, U)
EQ(o, O, uc, UC)
EQ(o, O, o, O)
EQ(o, O, oc, OC)
EQ(oc, OC, u, U)
EQ(oc, OC, uc, UC)
EQ(oc, OC, o, O)
EQ(oc, OC, oc, OC)
