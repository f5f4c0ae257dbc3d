From b0922a1b1f2a22ac4239683b90227d7844f35812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:53 +0000
Subject: [PATCH 01/22] fix: a copied cache must not refer to the order queue
 and entries of its source

---
 include/lru/internal/base-cache.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index fe49a72..ba2837e 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -1523,14 +1523,19 @@ class BaseCache {
   }
 
   /// Looks up each key in the queue and re-assigns it to the proper key in the
-  /// map.
+  /// map, and vice-versa for the order iterators stored in the map.
   ///
   /// After a copy, the reference (wrappers) in the order queue point
-  /// to the keys of the other cache's map. Thus we need to re-assign them.
+  /// to the keys of the other cache's map, the order iterators in the map point
+  /// into the other cache's queue and the last accessed entry is one of the
+  /// other cache. Thus we need to re-assign (or forget) them.
   void _reassign_references() noexcept {
-    for (auto& key_reference : _order) {
-      key_reference = std::ref(_map.find(key_reference)->first);
+    for (auto node = _order.begin(); node != _order.end(); ++node) {
+      auto iterator = _map.find(*node);
+      *node = std::ref(iterator->first);
+      iterator->second.order = node;
     }
+    _last_accessed.invalidate();
   }
 
   /// Inserts a new key into the queue.
-- 
2.43.0


From 7508c5c4588541989c6ca429734befa46a41e80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:17 +0000
Subject: [PATCH 02/22] fix: swapping and moving caches must transfer
 statistics, callbacks and a defined capacity

---
 include/lru/internal/base-cache.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index ba2837e..e52d8fe 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -498,7 +498,7 @@ class BaseCache {
   }
 
   /// Move constructor.
-  BaseCache(BaseCache&& other) {
+  BaseCache(BaseCache&& other) : _capacity(other._capacity) {
     // Following the copy-swap idiom.
     swap(other);
   }
@@ -573,7 +573,9 @@ class BaseCache {
 
     swap(_order, other._order);
     swap(_map, other._map);
+    swap(_stats, other._stats);
     swap(_last_accessed, other._last_accessed);
+    swap(_callback_manager, other._callback_manager);
     swap(_capacity, other._capacity);
   }
 
-- 
2.43.0


From c80fa83d2f5131299f73803c8282c70b62d6e333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:07 +0000
Subject: [PATCH 03/22] fix: copying a non-const cache must not be taken for a
 range operation

---
 include/lru/cache.hpp               |  3 ++-
 include/lru/internal/base-cache.hpp |  6 ++++--
 include/lru/internal/utility.hpp    | 12 ++++++++++++
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/include/lru/cache.hpp b/include/lru/cache.hpp
index 7150bfc..c8ca49a 100644
--- a/include/lru/cache.hpp
+++ b/include/lru/cache.hpp
@@ -124,7 +124,8 @@ class Cache
   /// \param range A range to construct the cache with.
   /// \param hash The hash function to use for the internal map.
   /// \param key_equal The key equality function to use for the internal map.
-  template <typename Range, typename = Internal::enable_if_range<Range>>
+  template <typename Range,
+            typename = Internal::enable_if_other_range<Range, Cache>>
   explicit Cache(Range&& range,
                  const HashFunction& hash = HashFunction(),
                  const KeyEqual& equal = KeyEqual())
diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index e52d8fe..99258b6 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -537,7 +537,8 @@ class BaseCache {
   ///
   /// \param range A range of pairs to assign to the cache.
   /// \returns The cache instance.
-  template <typename Range, typename = Internal::enable_if_range<Range>>
+  template <typename Range,
+            typename = Internal::enable_if_other_range<Range, BaseCache>>
   BaseCache& operator=(const Range& range) {
     _clear_and_increase_capacity(range);
     insert(range);
@@ -550,7 +551,8 @@ class BaseCache {
   ///
   /// \param range A range of pairs to assign to the cache.
   /// \returns The cache instance.
-  template <typename Range, typename = Internal::enable_if_range<Range>>
+  template <typename Range,
+            typename = Internal::enable_if_other_range<Range, BaseCache>>
   BaseCache& operator=(Range&& range) {
     _clear_and_increase_capacity(range);
     insert(std::move(range));
diff --git a/include/lru/internal/utility.hpp b/include/lru/internal/utility.hpp
index 2be5a8d..bed4d0a 100644
--- a/include/lru/internal/utility.hpp
+++ b/include/lru/internal/utility.hpp
@@ -25,6 +25,7 @@
 #include <cstddef>
 #include <iterator>
 #include <tuple>
+#include <type_traits>
 #include <utility>
 
 namespace LRU {
@@ -81,6 +82,17 @@ template <typename T>
 using enable_if_range = std::pair<decltype(std::declval<T>().begin()),
                                   decltype(std::declval<T>().end())>;
 
+/// A type trait that disables a template overload if a type is not a range, or
+/// if it is the given class itself (or derived from it), such that the template
+/// does not take part in copying and moving objects of that class.
+///
+/// \tparam T the type to check.
+/// \tparam Self the class that is not to be treated as a range.
+template <typename T, typename Self>
+using enable_if_other_range =
+    std::enable_if_t<!std::is_base_of<Self, std::decay_t<T>>::value,
+                     enable_if_range<T>>;
+
 /// A type trait that disables a template overload if a type is not an iterator
 /// over a pair.
 ///
-- 
2.43.0


From 5302fa44c9cc1cab6ac7983b131806979d47a8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:18 +0000
Subject: [PATCH 04/22] fix: assigning from an lvalue range must not move from
 it

---
 include/lru/internal/base-cache.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index 99258b6..b278286 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -555,7 +555,7 @@ class BaseCache {
             typename = Internal::enable_if_other_range<Range, BaseCache>>
   BaseCache& operator=(Range&& range) {
     _clear_and_increase_capacity(range);
-    insert(std::move(range));
+    insert(std::forward<Range>(range));
     return *this;
   }
 
-- 
2.43.0


From 00a02480c8b26a1c584ce650bfff5b752b1cc3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:04 +0000
Subject: [PATCH 05/22] fix: updating a key of a timed cache must restart its
 time to live

---
 include/lru/internal/base-cache.hpp        |  2 +-
 include/lru/internal/information.hpp       |  7 +++++++
 include/lru/internal/timed-information.hpp | 10 +++++++++-
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index b278286..1a18f6f 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -1413,7 +1413,7 @@ class BaseCache {
     // The original iterator is not invalidated and now points to the new
     // position (which is still the same node).
     _move_to_front(iterator->second.order);
-    iterator->second.value = new_value;
+    iterator->second.update(new_value);
   }
 
   /// Erases the element most recently inserted into the cache.
diff --git a/include/lru/internal/information.hpp b/include/lru/internal/information.hpp
index 4a28a98..4e999e6 100644
--- a/include/lru/internal/information.hpp
+++ b/include/lru/internal/information.hpp
@@ -117,6 +117,13 @@ struct Information {
     return !(*this == other);
   }
 
+  /// Assigns a new value to the information.
+  ///
+  /// \param new_value The value to assign.
+  virtual void update(const Value& new_value) {
+    value = new_value;
+  }
+
   /// The value of the information.
   Value value;
 
diff --git a/include/lru/internal/timed-information.hpp b/include/lru/internal/timed-information.hpp
index 72865a6..e589e18 100644
--- a/include/lru/internal/timed-information.hpp
+++ b/include/lru/internal/timed-information.hpp
@@ -106,8 +106,16 @@ struct TimedInformation : public Information<Key, Value> {
     return !(*this == other);
   }
 
+  /// Assigns a new value and restarts the time to live.
+  ///
+  /// \param new_value The value to assign.
+  void update(const Value& new_value) override {
+    super::update(new_value);
+    insertion_time = Internal::Clock::now();
+  }
+
   /// The time at which the key of the information was insterted into a cache.
-  const Timestamp insertion_time;
+  Timestamp insertion_time;
 };
 
 }  // namespace Internal
-- 
2.43.0


From 3a03c7b95ca255aecfe124609de3074f452cc2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:30 +0000
Subject: [PATCH 06/22] fix: expired keys may be anywhere in the order of a
 timed cache

---
 include/lru/timed-cache.hpp | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/include/lru/timed-cache.hpp b/include/lru/timed-cache.hpp
index 0038932..cbf8a0f 100644
--- a/include/lru/timed-cache.hpp
+++ b/include/lru/timed-cache.hpp
@@ -233,11 +233,13 @@ class TimedCache
   /// \returns True if all keys in the cache have expired, else false.
   bool all_expired() const {
     // By the laws of predicate logic, any statement about any empty set is true
-    if (is_empty()) return true;
+    // Note that the order of the queue is not the order of insertion, because
+    // lookups move keys to the front without restarting their time to live.
+    for (const auto& pair : _map) {
+      if (!_has_expired(pair.second)) return false;
+    }
 
-    /// If the most-recently inserted key has expired, all others must have too.
-    auto latest = _map.find(_order.back());
-    return _has_expired(latest->second);
+    return true;
   }
 
   /// Erases all expired elements from the cache.
@@ -250,22 +252,22 @@ class TimedCache
     // Either way, in the worst case the entire cache has expired and
     // we would have to do O(N) erasures.
 
-    if (is_empty()) return 0;
+    // Also, lookups move keys to the front without restarting their time to
+    // live, such that there may be expired keys after ones that are not.
 
-    auto iterator = _order.begin();
     size_t number_of_erasures = 0;
 
+    auto iterator = _order.begin();
     while (iterator != _order.end()) {
       auto map_iterator = _map.find(*iterator);
 
-      // If the current element hasn't expired, also all elements inserted
-      // after will not have, so we can stop.
-      if (!_has_expired(map_iterator->second)) break;
-
-      _erase(map_iterator);
+      // Erasing an element does not invalidate iterators to other elements.
+      ++iterator;
 
-      iterator = _order.begin();
-      number_of_erasures += 1;
+      if (_has_expired(map_iterator->second)) {
+        _erase(map_iterator);
+        number_of_erasures += 1;
+      }
     }
 
     return number_of_erasures;
-- 
2.43.0


From fbf59a7d1b01e4d82c260ffe69dbe61cc4442d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:41 +0000
Subject: [PATCH 07/22] fix: front() and back() of an empty cache must throw
 and not terminate

---
 include/lru/cache.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lru/cache.hpp b/include/lru/cache.hpp
index c8ca49a..a6c0d4c 100644
--- a/include/lru/cache.hpp
+++ b/include/lru/cache.hpp
@@ -178,7 +178,7 @@ class Cache
   }
 
   /// \returns The most-recently inserted element.
-  const Key& front() const noexcept {
+  const Key& front() const {
     if (is_empty()) {
       throw LRU::Error::EmptyCache("front");
     } else {
@@ -188,7 +188,7 @@ class Cache
   }
 
   /// \returns The least-recently inserted element.
-  const Key& back() const noexcept {
+  const Key& back() const {
     if (is_empty()) {
       throw LRU::Error::EmptyCache("back");
     } else {
-- 
2.43.0


From c351516d259222b1eff66ff60b90241925544147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:29 +0000
Subject: [PATCH 08/22] fix: tuples holding values must be usable as
 constructor arguments

---
 include/lru/internal/information.hpp | 3 ++-
 include/lru/internal/utility.hpp     | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/lru/internal/information.hpp b/include/lru/internal/information.hpp
index 4e999e6..6fb657a 100644
--- a/include/lru/internal/information.hpp
+++ b/include/lru/internal/information.hpp
@@ -142,7 +142,8 @@ struct Information {
   Information(const QueueIterator& order_,
               const std::tuple<ValueArguments...>& value_argument,
               std::index_sequence<Indices...> _)
-  : value(std::forward<ValueArguments>(std::get<Indices>(value_argument))...)
+  : value(std::forward<const ValueArguments>(
+        std::get<Indices>(value_argument))...)
   , order(order_) {
   }
 };
diff --git a/include/lru/internal/utility.hpp b/include/lru/internal/utility.hpp
index bed4d0a..53ab594 100644
--- a/include/lru/internal/utility.hpp
+++ b/include/lru/internal/utility.hpp
@@ -48,7 +48,7 @@ constexpr auto tuple_indices(const std::tuple<Ts...>&) {
 template <typename T, typename... Args, std::size_t... Indices>
 constexpr T construct_from_tuple(const std::tuple<Args...>& arguments,
                                  std::index_sequence<Indices...>) {
-  return T(std::forward<Args>(std::get<Indices>(arguments))...);
+  return T(std::forward<const Args>(std::get<Indices>(arguments))...);
 }
 
 /// Applies (in the functional sense) a tuple to the constructor of a class.
-- 
2.43.0


From 37ad8283615a1bf1f6d3218f306da3e7941bbd4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:42 +0000
Subject: [PATCH 09/22] fix: every wrapped function must have its own cache and
 own its arguments

---
 include/lru/wrap.hpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/lru/wrap.hpp b/include/lru/wrap.hpp
index e384968..de5b286 100644
--- a/include/lru/wrap.hpp
+++ b/include/lru/wrap.hpp
@@ -23,8 +23,12 @@
 #define LRU_WRAP_HPP
 
 #include <cstddef>
+#include <memory>
 #include <tuple>
 #include <type_traits>
+#include <typeindex>
+#include <typeinfo>
+#include <unordered_map>
 #include <utility>
 
 #include <lru/cache.hpp>
@@ -50,7 +54,11 @@ template <typename Function,
 auto wrap(Function original_function, Args&&... args) {
   return [
     original_function,
-    cache_args = std::forward_as_tuple(std::forward<Args>(args)...)
+    cache_args =
+        std::tuple<std::decay_t<Args>...>(std::forward<Args>(args)...),
+    // The cache of this function (one per combination of argument types).
+    caches = std::make_shared<
+        std::unordered_map<std::type_index, std::shared_ptr<void>>>()
   ](auto&&... arguments) mutable {
     using Arguments = std::tuple<std::decay_t<decltype(arguments)>...>;
     using ReturnType = decltype(
@@ -59,9 +67,14 @@ auto wrap(Function original_function, Args&&... args) {
     static_assert(!std::is_void<ReturnType>::value,
                   "Return type of wrapped function must not be void");
 
-    static auto cache =
-        Internal::construct_from_tuple<CacheType<Arguments, ReturnType>>(
-            cache_args);
+    using CacheForArguments = CacheType<Arguments, ReturnType>;
+
+    auto& pointer = (*caches)[typeid(CacheForArguments)];
+    if (pointer == nullptr) {
+      pointer = std::make_shared<CacheForArguments>(
+          Internal::construct_from_tuple<CacheForArguments>(cache_args));
+    }
+    auto& cache = *static_cast<CacheForArguments*>(pointer.get());
 
     auto key = std::make_tuple(arguments...);
     auto iterator = cache.find(key);
-- 
2.43.0


From eb6fe0cd04dc60b62ecda2c85db8f3f8d7e0f497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:09 +0000
Subject: [PATCH 10/22] fix: accesses to the last accessed key must be misses
 once it has expired

---
 include/lru/internal/base-cache.hpp | 1 +
 include/lru/timed-cache.hpp         | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index 1a18f6f..e9f69b7 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -794,6 +794,7 @@ class BaseCache {
         // If this is the last accessed key, it's at the front anyway
         return true;
       } else {
+        _register_miss(key);
         return false;
       }
     }
diff --git a/include/lru/timed-cache.hpp b/include/lru/timed-cache.hpp
index cbf8a0f..bb727fa 100644
--- a/include/lru/timed-cache.hpp
+++ b/include/lru/timed-cache.hpp
@@ -352,6 +352,7 @@ class TimedCache
   Value& _value_for_last_accessed() override {
     auto& information = _last_accessed.information();
     if (_has_expired(information)) {
+      _register_miss(_last_accessed.key());
       throw LRU::Error::KeyExpired();
     } else {
       return information.value;
@@ -364,6 +365,7 @@ class TimedCache
   const Value& _value_for_last_accessed() const override {
     const auto& information = _last_accessed.information();
     if (_has_expired(information)) {
+      _register_miss(_last_accessed.key());
       throw LRU::Error::KeyExpired();
     } else {
       return information.value;
-- 
2.43.0


From 93c18a38e6a8fd9f415a1b785f23b5a6b23ad5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:21 +0000
Subject: [PATCH 11/22] fix: expired entries must be erasable via ordered
 iterators

---
 include/lru/internal/base-cache.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index e9f69b7..c265a7b 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -1139,7 +1139,8 @@ class BaseCache {
     if (iterator == ordered_cend()) {
       throw LRU::Error::InvalidIterator();
     } else {
-      _erase(_map.find(iterator.key()));
+      // Not via the key of the iterator, since expired keys may be erased too
+      _erase(_map.find(*iterator._iterator));
     }
   }
 
-- 
2.43.0


From 116bcc88d470b1447f237e4275d3cae224078e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:32 +0000
Subject: [PATCH 12/22] fix: unordered iterators must be checked before they
 are dereferenced

---
 include/lru/internal/base-unordered-iterator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lru/internal/base-unordered-iterator.hpp b/include/lru/internal/base-unordered-iterator.hpp
index f294b13..017194e 100644
--- a/include/lru/internal/base-unordered-iterator.hpp
+++ b/include/lru/internal/base-unordered-iterator.hpp
@@ -179,11 +179,12 @@ class BaseUnorderedIterator
   /// \throws LRU::Error::KeyExpired if the key pointed to by the iterator has
   /// expired.
   Entry& entry() override {
+    _cache->throw_if_invalid(*this);
+
     if (!_entry.has_value()) {
       _entry.emplace(_iterator->first, _iterator->second.value);
     }
 
-    _cache->throw_if_invalid(*this);
     return *_entry;
   }
 
-- 
2.43.0


From f9bfb92c9e6b9c4bc71a15ca0b28f25a3617fc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:43 +0000
Subject: [PATCH 13/22] fix: Statistics::reset_all() must compile

---
 include/lru/statistics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lru/statistics.hpp b/include/lru/statistics.hpp
index 0c97016..29b9ce4 100644
--- a/include/lru/statistics.hpp
+++ b/include/lru/statistics.hpp
@@ -208,7 +208,7 @@ class Statistics {
   /// Clears the statistics of all keys, but keeps on monitoring it them.
   void reset_all() {
     for (auto& pair : _key_map) {
-      _key_map.second.reset();
+      pair.second.reset();
     }
   }
 
-- 
2.43.0


From 4005f977f33286a89c6f576533ba690ebfa8ee11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:09 +0000
Subject: [PATCH 14/22] fix: timed-cache.hpp and wrap.hpp must include what
 they need

---
 include/lru/timed-cache.hpp | 1 +
 include/lru/wrap.hpp        | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/lru/timed-cache.hpp b/include/lru/timed-cache.hpp
index bb727fa..cc064b5 100644
--- a/include/lru/timed-cache.hpp
+++ b/include/lru/timed-cache.hpp
@@ -33,6 +33,7 @@
 #include <unordered_map>
 #include <utility>
 
+#include <lru/cache-tags.hpp>
 #include <lru/error.hpp>
 #include <lru/internal/base-cache.hpp>
 #include <lru/internal/last-accessed.hpp>
diff --git a/include/lru/wrap.hpp b/include/lru/wrap.hpp
index de5b286..f0617cd 100644
--- a/include/lru/wrap.hpp
+++ b/include/lru/wrap.hpp
@@ -34,6 +34,7 @@
 #include <lru/cache.hpp>
 #include <lru/internal/hash.hpp>
 #include <lru/internal/utility.hpp>
+#include <lru/timed-cache.hpp>
 
 namespace LRU {
 
-- 
2.43.0


From 9b4ff457070a602987c9d86d03541a017f3b8b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:22 +0000
Subject: [PATCH 15/22] fix: do not use std::optional before C++17

---
 include/lru/internal/optional.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lru/internal/optional.hpp b/include/lru/internal/optional.hpp
index 8336d3b..6d228a8 100644
--- a/include/lru/internal/optional.hpp
+++ b/include/lru/internal/optional.hpp
@@ -24,7 +24,7 @@
 
 #ifndef __has_include
 #define USE_LRU_OPTIONAL
-#elif __has_include(<optional>)
+#elif __cplusplus >= 201703L && __has_include(<optional>)
 
 #include <optional>
 
-- 
2.43.0


From fba8085a9a1a6e102045b85079cdb26c942c8f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:13 +0000
Subject: [PATCH 16/22] fix: ordered iterators must be constructible from their
 base

---
 include/lru/internal/base-cache.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index c265a7b..ed97685 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -252,7 +252,7 @@ class BaseCache {
     /// Constructs a new OrderedIterator from an unordered base iterator.
     ///
     /// \param iterator The iterator to initialize this one from.
-    OrderedIterator(BaseOrderedIterator<Key, Value, BaseCache>
+    OrderedIterator(BaseOrderedIterator<const Key, Value, BaseCache>
                         iterator)  // NOLINT(runtime/explicit)
         : super(std::move(iterator)) {
       // Note that this only works because these derived iterator
-- 
2.43.0


From d9f0d0fc7fd14cddb4ddd8838c76d9015009bc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 17/22] fix: iterators of different constness must be
 comparable

---
 include/lru/internal/base-ordered-iterator.hpp   | 11 +++++++----
 include/lru/internal/base-unordered-iterator.hpp |  3 +++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/lru/internal/base-ordered-iterator.hpp b/include/lru/internal/base-ordered-iterator.hpp
index a0ed951..3deaf74 100644
--- a/include/lru/internal/base-ordered-iterator.hpp
+++ b/include/lru/internal/base-ordered-iterator.hpp
@@ -148,7 +148,9 @@ class BaseOrderedIterator
   ///
   /// \param other The other ordered iterator.
   /// \returns True if both iterators point to the same entry, else false.
-  bool operator==(const BaseOrderedIterator& other) const noexcept {
+  template <typename AnyKey, typename AnyValue, typename AnyCache>
+  bool operator==(const BaseOrderedIterator<AnyKey, AnyValue, AnyCache>& other)
+      const noexcept {
     return this->_iterator == other._iterator;
   }
 
@@ -156,7 +158,9 @@ class BaseOrderedIterator
   ///
   /// \param other The other ordered iterator.
   /// \returns True if the iterators point to different entries, else false.
-  bool operator!=(const BaseOrderedIterator& other) const noexcept {
+  template <typename AnyKey, typename AnyValue, typename AnyCache>
+  bool operator!=(const BaseOrderedIterator<AnyKey, AnyValue, AnyCache>& other)
+      const noexcept {
     return !(*this == other);
   }
 
@@ -182,8 +186,7 @@ class BaseOrderedIterator
       return *this == this->_cache->ordered_end();
     }
 
-    // Will call the other overload
-    return *this == static_cast<BaseOrderedIterator>(other);
+    return this->_iterator == other._iterator->second.order;
   }
 
   /// Checks for equality between an unordered iterator and an ordered iterator.
diff --git a/include/lru/internal/base-unordered-iterator.hpp b/include/lru/internal/base-unordered-iterator.hpp
index 017194e..8c0aa4d 100644
--- a/include/lru/internal/base-unordered-iterator.hpp
+++ b/include/lru/internal/base-unordered-iterator.hpp
@@ -205,6 +205,9 @@ class BaseUnorderedIterator
   }
 
  protected:
+  template <typename, typename>
+  friend class BaseUnorderedIterator;
+
   template <typename, typename, typename>
   friend class BaseOrderedIterator;
 
-- 
2.43.0


From c34b39d00e416b30b068be4582b7a22a045424ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:07 +0000
Subject: [PATCH 18/22] fix: iterators must compile with std::optional

---
 include/lru/internal/base-iterator.hpp         | 15 +++++++++++++--
 include/lru/internal/base-ordered-iterator.hpp |  1 -
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/lru/internal/base-iterator.hpp b/include/lru/internal/base-iterator.hpp
index b695a72..f0ce08c 100644
--- a/include/lru/internal/base-iterator.hpp
+++ b/include/lru/internal/base-iterator.hpp
@@ -112,7 +112,15 @@ class BaseIterator : public std::iterator<IteratorTag, LRU::Entry<Key, Value>> {
   BaseIterator(BaseIterator&& other) noexcept = default;
 
   /// Move assignment operator.
-  BaseIterator& operator=(BaseIterator&& other) noexcept = default;
+  ///
+  /// Like the copy assignment operator, it does not assign the entry, since
+  /// entries hold references and can thus not be re-assigned.
+  ///
+  /// \param other The base iterator to move into this one.
+  /// \return The base iterator instance.
+  BaseIterator& operator=(BaseIterator&& other) noexcept {
+    return *this = other;
+  }
 
   /// Generalized copy constructor.
   ///
@@ -163,8 +171,11 @@ class BaseIterator : public std::iterator<IteratorTag, LRU::Entry<Key, Value>> {
     using std::swap;
 
     swap(_iterator, other._iterator);
-    swap(_entry, other._entry);
     swap(_cache, other._cache);
+
+    // Entries hold references, thus they can be neither assigned nor swapped.
+    _entry.reset();
+    other._entry.reset();
   }
 
   /// Swaps two base iterator.
diff --git a/include/lru/internal/base-ordered-iterator.hpp b/include/lru/internal/base-ordered-iterator.hpp
index 3deaf74..ae723d3 100644
--- a/include/lru/internal/base-ordered-iterator.hpp
+++ b/include/lru/internal/base-ordered-iterator.hpp
@@ -125,7 +125,6 @@ class BaseOrderedIterator
     // Atomicity
     _throw_if_at_invalid(unordered_iterator);
     _cache = std::move(unordered_iterator._cache);
-    _entry = std::move(unordered_iterator._entry);
     _iterator = std::move(unordered_iterator._iterator->second.order);
   }
 
-- 
2.43.0


From 2daf6dbf27fa6211cf189354c8be67533bcc7099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:51 +0000
Subject: [PATCH 19/22] fix: a failed allocation must not leave a key outside
 of the order

---
 include/lru/internal/base-cache.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index ed97685..fd5ab09 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -1554,7 +1554,13 @@ class BaseCache {
     if (_is_too_full()) {
       _evict_lru_for(key);
     } else {
-      _order.emplace_back(key);
+      try {
+        _order.emplace_back(key);
+      } catch (...) {
+        // The key must not stay in the map if it is not in the queue.
+        _map.erase(_map.find(key));
+        throw;
+      }
     }
 
     return std::prev(_order.end());
-- 
2.43.0


From a0ef25ddc4392a67df8710b10aae25eff41c6d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:45 +0000
Subject: [PATCH 20/22] fix: a moved-from cache must keep its hash and equality
 functions

---
 include/lru/internal/base-cache.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index fd5ab09..9c866bc 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -498,7 +498,10 @@ class BaseCache {
   }
 
   /// Move constructor.
-  BaseCache(BaseCache&& other) : _capacity(other._capacity) {
+  BaseCache(BaseCache&& other)
+  : _map(0, other._map.hash_function(), other._map.key_eq())
+  , _last_accessed(other._last_accessed.key_equal())
+  , _capacity(other._capacity) {
     // Following the copy-swap idiom.
     swap(other);
   }
-- 
2.43.0


From d8d5dfc9887b07e100544467da7480c1a48acb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:03 +0000
Subject: [PATCH 21/22] fix: a failed update must not change the order

---
 include/lru/internal/base-cache.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index 9c866bc..6106516 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -1414,11 +1414,12 @@ class BaseCache {
   /// \param iterator The iterator pointing to the key to move.
   /// \param new_value The updated value to move the key with.
   virtual void _move_to_front(MapIterator iterator, const Value& new_value) {
+    // If this throws, the order must not have changed either.
+    iterator->second.update(new_value);
     // Extract the current linked-list node and insert (splice it) at the end
     // The original iterator is not invalidated and now points to the new
     // position (which is still the same node).
     _move_to_front(iterator->second.order);
-    iterator->second.update(new_value);
   }
 
   /// Erases the element most recently inserted into the cache.
-- 
2.43.0


From 284cb88fdcac4efdd5085abebb283ce84a0f40b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:04 +0000
Subject: [PATCH 22/22] fix: values need only be equality comparable

---
 include/lru/internal/information.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lru/internal/information.hpp b/include/lru/internal/information.hpp
index 6fb657a..82021f5 100644
--- a/include/lru/internal/information.hpp
+++ b/include/lru/internal/information.hpp
@@ -100,7 +100,7 @@ struct Information {
   /// information objects are equal, else false.
   virtual bool operator==(const Information& other) const noexcept {
     if (this == &other) return true;
-    if (this->value != other.value) return false;
+    if (!(this->value == other.value)) return false;
     // We do not compare the iterator (because otherwise two containers
     // holding information would never be equal). We also do not compare
     // the key stored in the iterator, because keys will always have been
-- 
2.43.0

