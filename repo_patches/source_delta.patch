From 53c5940ae703d653d8fb96e8b09c253e6521e358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:55 +0000
Subject: [PATCH 01/23] fix: make copied caches independent of their source

The order iterators in the copied map and the last-accessed entry still pointed
into the source cache.
---
 include/lru/internal/base-cache.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index fe49a72..98bbf90 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -1526,10 +1526,18 @@ class BaseCache {
   /// map.
   ///
   /// After a copy, the reference (wrappers) in the order queue point
-  /// to the keys of the other cache's map. Thus we need to re-assign them.
+  /// to the keys of the other cache's map, the order iterators in the map point
+  /// into the other cache's queue and the last-accessed entry is the one of the
+  /// other cache. Thus we need to re-assign them.
   void _reassign_references() noexcept {
-    for (auto& key_reference : _order) {
-      key_reference = std::ref(_map.find(key_reference)->first);
+    for (auto order = _order.begin(); order != _order.end(); ++order) {
+      auto iterator = _map.find(*order);
+      *order = std::ref(iterator->first);
+      iterator->second.order = order;
+    }
+
+    if (_last_accessed.is_valid()) {
+      _last_accessed = _map.find(_last_accessed.key());
     }
   }
 
-- 
2.43.0


From 482c68d74e06da48f07dfe9a91f57ac409417398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:32 +0000
Subject: [PATCH 02/23] fix: copy non-const caches with the copy constructor

The constructor from a range was the better match for a non-const cache, so that
the copy had another capacity and order than its source.
---
 include/lru/cache.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/lru/cache.hpp b/include/lru/cache.hpp
index 7150bfc..efe35a4 100644
--- a/include/lru/cache.hpp
+++ b/include/lru/cache.hpp
@@ -124,7 +124,10 @@ class Cache
   /// \param range A range to construct the cache with.
   /// \param hash The hash function to use for the internal map.
   /// \param key_equal The key equality function to use for the internal map.
-  template <typename Range, typename = Internal::enable_if_range<Range>>
+  template <typename Range,
+            typename = Internal::enable_if_range<Range>,
+            typename = std::enable_if_t<
+                !std::is_base_of<Cache, std::decay_t<Range>>::value>>
   explicit Cache(Range&& range,
                  const HashFunction& hash = HashFunction(),
                  const KeyEqual& equal = KeyEqual())
-- 
2.43.0


From d7e9da98209a55bc771f8adc4c1044274db169bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:40 +0000
Subject: [PATCH 03/23] fix: do not move values out of assigned lvalues

Assigning a non-const cache or range selected the assignment from rvalue ranges,
which moved the values out of its argument and emptied a self-assigned cache.
---
 include/lru/internal/base-cache.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index 98bbf90..3150b21 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -550,7 +550,10 @@ class BaseCache {
   ///
   /// \param range A range of pairs to assign to the cache.
   /// \returns The cache instance.
-  template <typename Range, typename = Internal::enable_if_range<Range>>
+  template <
+      typename Range,
+      typename = Internal::enable_if_range<Range>,
+      typename = std::enable_if_t<!std::is_lvalue_reference<Range>::value>>
   BaseCache& operator=(Range&& range) {
     _clear_and_increase_capacity(range);
     insert(std::move(range));
-- 
2.43.0


From 642e18c0c38d2ad8881884803b68511ffc0a730e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:04 +0000
Subject: [PATCH 04/23] fix: initialize the capacity in the move constructor

The moved-from cache was swapped with an uninitialized capacity.
---
 include/lru/internal/base-cache.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index 3150b21..30555fb 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -498,7 +498,7 @@ class BaseCache {
   }
 
   /// Move constructor.
-  BaseCache(BaseCache&& other) {
+  BaseCache(BaseCache&& other) : _capacity(other._capacity) {
     // Following the copy-swap idiom.
     swap(other);
   }
-- 
2.43.0


From 86f01b14e56f9309b4d181bf6d2d857264715b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 05/23] fix: let front() and back() throw EmptyCache

They were noexcept, so that calling them on an empty cache terminated the
program.
---
 include/lru/cache.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lru/cache.hpp b/include/lru/cache.hpp
index efe35a4..54be577 100644
--- a/include/lru/cache.hpp
+++ b/include/lru/cache.hpp
@@ -180,7 +180,7 @@ class Cache
   }
 
   /// \returns The most-recently inserted element.
-  const Key& front() const noexcept {
+  const Key& front() const {
     if (is_empty()) {
       throw LRU::Error::EmptyCache("front");
     } else {
@@ -190,7 +190,7 @@ class Cache
   }
 
   /// \returns The least-recently inserted element.
-  const Key& back() const noexcept {
+  const Key& back() const {
     if (is_empty()) {
       throw LRU::Error::EmptyCache("back");
     } else {
-- 
2.43.0


From 148efb318a6f91449d1b76bbd46fc5b9ded17f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:17 +0000
Subject: [PATCH 06/23] fix: make Statistics::reset_all() compile

---
 include/lru/statistics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lru/statistics.hpp b/include/lru/statistics.hpp
index 0c97016..29b9ce4 100644
--- a/include/lru/statistics.hpp
+++ b/include/lru/statistics.hpp
@@ -208,7 +208,7 @@ class Statistics {
   /// Clears the statistics of all keys, but keeps on monitoring it them.
   void reset_all() {
     for (auto& pair : _key_map) {
-      _key_map.second.reset();
+      pair.second.reset();
     }
   }
 
-- 
2.43.0


From 56cc2809d44f365487f872247f54605b7f21e9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:23 +0000
Subject: [PATCH 07/23] fix: do not assign entries when converting iterators

Entries hold references, so std::optional cannot assign them and the conversion
to an ordered iterator did not compile with it.
---
 include/lru/internal/base-ordered-iterator.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/lru/internal/base-ordered-iterator.hpp b/include/lru/internal/base-ordered-iterator.hpp
index a0ed951..33eb6ec 100644
--- a/include/lru/internal/base-ordered-iterator.hpp
+++ b/include/lru/internal/base-ordered-iterator.hpp
@@ -125,7 +125,6 @@ class BaseOrderedIterator
     // Atomicity
     _throw_if_at_invalid(unordered_iterator);
     _cache = std::move(unordered_iterator._cache);
-    _entry = std::move(unordered_iterator._entry);
     _iterator = std::move(unordered_iterator._iterator->second.order);
   }
 
-- 
2.43.0


From 12578c48251f3009d00bc7eb74dafb530cc39784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:29 +0000
Subject: [PATCH 08/23] fix: erase expired entries through ordered iterators

The key was read with a validity check that throws KeyExpired.
---
 include/lru/internal/base-cache.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index 30555fb..ca7efab 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -1137,7 +1137,7 @@ class BaseCache {
     if (iterator == ordered_cend()) {
       throw LRU::Error::InvalidIterator();
     } else {
-      _erase(_map.find(iterator.key()));
+      _erase(_map.find(*iterator._iterator));
     }
   }
 
-- 
2.43.0


From 297c31701f90c45acb7809756dbb50143f2af93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 09/23] fix: check unordered iterators before dereferencing
 them

entry(), key() and value() of a past-the-end iterator dereferenced it before
throwing InvalidIterator.
---
 include/lru/internal/base-unordered-iterator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lru/internal/base-unordered-iterator.hpp b/include/lru/internal/base-unordered-iterator.hpp
index f294b13..017194e 100644
--- a/include/lru/internal/base-unordered-iterator.hpp
+++ b/include/lru/internal/base-unordered-iterator.hpp
@@ -179,11 +179,12 @@ class BaseUnorderedIterator
   /// \throws LRU::Error::KeyExpired if the key pointed to by the iterator has
   /// expired.
   Entry& entry() override {
+    _cache->throw_if_invalid(*this);
+
     if (!_entry.has_value()) {
       _entry.emplace(_iterator->first, _iterator->second.value);
     }
 
-    _cache->throw_if_invalid(*this);
     return *_entry;
   }
 
-- 
2.43.0


From 5663f9c12fb5da3ffc8d4dc2a75783977fac43a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 10/23] fix: keep the order when assigning an updated value
 throws

The entry was moved to the front first, while the last-accessed entry, which is
assumed to be at the front, remained another one.
---
 include/lru/internal/base-cache.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index ca7efab..6359eed 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -1408,11 +1408,12 @@ class BaseCache {
   /// \param iterator The iterator pointing to the key to move.
   /// \param new_value The updated value to move the key with.
   virtual void _move_to_front(MapIterator iterator, const Value& new_value) {
+    // If the assignment throws, the order must not have changed.
+    iterator->second.value = new_value;
     // Extract the current linked-list node and insert (splice it) at the end
     // The original iterator is not invalidated and now points to the new
     // position (which is still the same node).
     _move_to_front(iterator->second.order);
-    iterator->second.value = new_value;
   }
 
   /// Erases the element most recently inserted into the cache.
-- 
2.43.0


From 7d271a7070a2c802e6363a7f9ed82790a99bfae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:12 +0000
Subject: [PATCH 11/23] fix: drop the new entry when its order node cannot be
 allocated

The entry stayed in the map without a valid order iterator.
---
 include/lru/internal/base-cache.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index 6359eed..453097a 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -1555,7 +1555,13 @@ class BaseCache {
     if (_is_too_full()) {
       _evict_lru_for(key);
     } else {
-      _order.emplace_back(key);
+      try {
+        _order.emplace_back(key);
+      } catch (...) {
+        // Do not leave an entry behind that is in the map but not in the order.
+        _map.erase(key);
+        throw;
+      }
     }
 
     return std::prev(_order.end());
-- 
2.43.0


From 28826d740a38ab3da3f04ff1d314154b064923ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 12/23] fix: start a new time to live when a key is stored
 again

The insertion time of a key that was present, even if expired, was kept, so that
an expired key remained expired however often it was inserted.
---
 include/lru/internal/timed-information.hpp | 5 +++--
 include/lru/timed-cache.hpp                | 7 +++++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/lru/internal/timed-information.hpp b/include/lru/internal/timed-information.hpp
index 72865a6..5a50e67 100644
--- a/include/lru/internal/timed-information.hpp
+++ b/include/lru/internal/timed-information.hpp
@@ -106,8 +106,9 @@ struct TimedInformation : public Information<Key, Value> {
     return !(*this == other);
   }
 
-  /// The time at which the key of the information was insterted into a cache.
-  const Timestamp insertion_time;
+  /// The time at which the key of the information was last insterted into or
+  /// updated in a cache.
+  Timestamp insertion_time;
 };
 
 }  // namespace Internal
diff --git a/include/lru/timed-cache.hpp b/include/lru/timed-cache.hpp
index 0038932..419af9f 100644
--- a/include/lru/timed-cache.hpp
+++ b/include/lru/timed-cache.hpp
@@ -338,6 +338,13 @@ class TimedCache
  private:
   using Clock = Internal::Clock;
 
+  /// \copydoc super::_move_to_front(MapIterator,const Value&)
+  /// \details Also starts a new time to live for the updated key.
+  void _move_to_front(MapIterator iterator, const Value& new_value) override {
+    super::_move_to_front(iterator, new_value);
+    iterator->second.insertion_time = Clock::now();
+  }
+
   /// \returns True if the last accessed object is valid.
   /// \details Next to performing the base cache's action, this method also
   /// checks for expiration of the last accessed key.
-- 
2.43.0


From 879693476bab04bd1182d92436a4bc83c2b83590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 13/23] fix: find all expired keys whatever their order

all_expired() and clear_expired() took the order of use for the order of
insertion, but lookups change the former.
---
 include/lru/timed-cache.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/lru/timed-cache.hpp b/include/lru/timed-cache.hpp
index 419af9f..ce8cc17 100644
--- a/include/lru/timed-cache.hpp
+++ b/include/lru/timed-cache.hpp
@@ -230,14 +230,19 @@ class TimedCache
   // no front() because we may have to erase the
   // entire cache if everything happens to be expired
 
+  /// \complexity O(N)
   /// \returns True if all keys in the cache have expired, else false.
   bool all_expired() const {
     // By the laws of predicate logic, any statement about any empty set is true
     if (is_empty()) return true;
 
-    /// If the most-recently inserted key has expired, all others must have too.
-    auto latest = _map.find(_order.back());
-    return _has_expired(latest->second);
+    // The most-recently used key need not be the most-recently inserted one, so
+    // we have to look at all keys.
+    for (const auto& pair : _map) {
+      if (!_has_expired(pair.second)) return false;
+    }
+
+    return true;
   }
 
   /// Erases all expired elements from the cache.
@@ -258,13 +263,12 @@ class TimedCache
     while (iterator != _order.end()) {
       auto map_iterator = _map.find(*iterator);
 
-      // If the current element hasn't expired, also all elements inserted
-      // after will not have, so we can stop.
-      if (!_has_expired(map_iterator->second)) break;
+      // Move on first, because erasing invalidates the iterator. Lookups change
+      // the order, so elements that have not expired may precede expired ones.
+      ++iterator;
+      if (!_has_expired(map_iterator->second)) continue;
 
       _erase(map_iterator);
-
-      iterator = _order.begin();
       number_of_erasures += 1;
     }
 
-- 
2.43.0


From e57b8802b3103724d1d627c75c902497544795ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 14/23] fix: register a miss when the last-accessed key has
 expired

contains() and lookup() of it neither counted an access nor ran any callback.
---
 include/lru/internal/base-cache.hpp | 1 +
 include/lru/timed-cache.hpp         | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index 453097a..8801357 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -793,6 +793,7 @@ class BaseCache {
         // If this is the last accessed key, it's at the front anyway
         return true;
       } else {
+        _register_miss(key);
         return false;
       }
     }
diff --git a/include/lru/timed-cache.hpp b/include/lru/timed-cache.hpp
index ce8cc17..64b8cb2 100644
--- a/include/lru/timed-cache.hpp
+++ b/include/lru/timed-cache.hpp
@@ -361,6 +361,7 @@ class TimedCache
   Value& _value_for_last_accessed() override {
     auto& information = _last_accessed.information();
     if (_has_expired(information)) {
+      _register_miss(_last_accessed.key());
       throw LRU::Error::KeyExpired();
     } else {
       return information.value;
@@ -373,6 +374,7 @@ class TimedCache
   const Value& _value_for_last_accessed() const override {
     const auto& information = _last_accessed.information();
     if (_has_expired(information)) {
+      _register_miss(_last_accessed.key());
       throw LRU::Error::KeyExpired();
     } else {
       return information.value;
-- 
2.43.0


From 8686ac85752d6d9207ccecf5d028e9ca8e21cc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 15/23] fix: check the expiry of a looked-up key only once

A key that expired between find() and the access to its value was registered as
a hit although lookup() threw KeyExpired.
---
 include/lru/internal/base-cache.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index 8801357..0b6e92a 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -824,7 +824,7 @@ class BaseCache {
     if (iterator == end()) {
       throw LRU::Error::KeyNotFound();
     } else {
-      return iterator.value();
+      return iterator->value();
     }
   }
 
@@ -851,7 +851,7 @@ class BaseCache {
     if (iterator == end()) {
       throw LRU::Error::KeyNotFound();
     } else {
-      return iterator.value();
+      return iterator->value();
     }
   }
 
-- 
2.43.0


From 8b94a2ed31101159270dac5cde174e2a2652d176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:48 +0000
Subject: [PATCH 16/23] fix: let wrapped functions own the arguments of their
 cache

They held references to arguments of wrap(), which were usually gone when the
cache was constructed in the first call.
---
 include/lru/wrap.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/lru/wrap.hpp b/include/lru/wrap.hpp
index e384968..e9af6f6 100644
--- a/include/lru/wrap.hpp
+++ b/include/lru/wrap.hpp
@@ -48,9 +48,13 @@ template <typename Function,
           template <typename...> class CacheType = Cache,
           typename... Args>
 auto wrap(Function original_function, Args&&... args) {
+  // The arguments may no longer exist when the function is called, so we have to
+  // store copies of them.
+  using CacheArguments = std::tuple<const std::decay_t<Args>...>;
+
   return [
     original_function,
-    cache_args = std::forward_as_tuple(std::forward<Args>(args)...)
+    cache_args = CacheArguments(std::forward<Args>(args)...)
   ](auto&&... arguments) mutable {
     using Arguments = std::tuple<std::decay_t<decltype(arguments)>...>;
     using ReturnType = decltype(
-- 
2.43.0


From a1a505ebd6f62389e4dacc8208f5ea0b90247972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:54 +0000
Subject: [PATCH 17/23] fix: give every wrapped function a cache of its own

The cache was a static variable of the closure type, which all functions wrapped
from originals of the same type, such as function pointers, share.
---
 include/lru/wrap.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/lru/wrap.hpp b/include/lru/wrap.hpp
index e9af6f6..9dbca59 100644
--- a/include/lru/wrap.hpp
+++ b/include/lru/wrap.hpp
@@ -23,8 +23,11 @@
 #define LRU_WRAP_HPP
 
 #include <cstddef>
+#include <memory>
 #include <tuple>
 #include <type_traits>
+#include <typeindex>
+#include <unordered_map>
 #include <utility>
 
 #include <lru/cache.hpp>
@@ -52,9 +55,14 @@ auto wrap(Function original_function, Args&&... args) {
   // store copies of them.
   using CacheArguments = std::tuple<const std::decay_t<Args>...>;
 
+  // One cache for each list of argument types the function is called with. They
+  // must not be static, because closures of one type would then share them.
+  using Caches = std::unordered_map<std::type_index, std::shared_ptr<void>>;
+
   return [
     original_function,
-    cache_args = CacheArguments(std::forward<Args>(args)...)
+    cache_args = CacheArguments(std::forward<Args>(args)...),
+    caches = std::make_shared<Caches>()
   ](auto&&... arguments) mutable {
     using Arguments = std::tuple<std::decay_t<decltype(arguments)>...>;
     using ReturnType = decltype(
@@ -63,9 +71,13 @@ auto wrap(Function original_function, Args&&... args) {
     static_assert(!std::is_void<ReturnType>::value,
                   "Return type of wrapped function must not be void");
 
-    static auto cache =
-        Internal::construct_from_tuple<CacheType<Arguments, ReturnType>>(
-            cache_args);
+    using WrappedCache = CacheType<Arguments, ReturnType>;
+    auto& cache_pointer = (*caches)[typeid(WrappedCache)];
+    if (!cache_pointer) {
+      cache_pointer = std::make_shared<WrappedCache>(
+          Internal::construct_from_tuple<WrappedCache>(cache_args));
+    }
+    auto& cache = *static_cast<WrappedCache*>(cache_pointer.get());
 
     auto key = std::make_tuple(arguments...);
     auto iterator = cache.find(key);
-- 
2.43.0


From 79678b8c1cb6dfbc3dc4f9ce932cde35daf52237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:35 +0000
Subject: [PATCH 18/23] fix: swap iterators without swapping their entries

With std::optional, entries (which hold references) can not be swapped, so
that swapping two iterators did not compile.
---
 include/lru/internal/base-iterator.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/lru/internal/base-iterator.hpp b/include/lru/internal/base-iterator.hpp
index b695a72..4a3de4b 100644
--- a/include/lru/internal/base-iterator.hpp
+++ b/include/lru/internal/base-iterator.hpp
@@ -163,8 +163,12 @@ class BaseIterator : public std::iterator<IteratorTag, LRU::Entry<Key, Value>> {
     using std::swap;
 
     swap(_iterator, other._iterator);
-    swap(_entry, other._entry);
     swap(_cache, other._cache);
+
+    // The entries hold references, so that they can not be swapped in general.
+    // They are retrieved again in the next call to entry().
+    _entry.reset();
+    other._entry.reset();
   }
 
   /// Swaps two base iterator.
-- 
2.43.0


From 7d73df859cfd654b9ecf34f0303729c6bca5b222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:19 +0000
Subject: [PATCH 19/23] fix: do not allocate in a noexcept function during
 lookups

---
 include/lru/internal/base-cache.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index 0b6e92a..eca007e 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -824,7 +824,7 @@ class BaseCache {
     if (iterator == end()) {
       throw LRU::Error::KeyNotFound();
     } else {
-      return iterator->value();
+      return iterator._iterator->second.value;
     }
   }
 
@@ -851,7 +851,7 @@ class BaseCache {
     if (iterator == end()) {
       throw LRU::Error::KeyNotFound();
     } else {
-      return iterator->value();
+      return iterator._iterator->second.value;
     }
   }
 
-- 
2.43.0


From 20958baac27c4910ef1fa8287d77a142ded5715f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:33 +0000
Subject: [PATCH 20/23] fix: start a new time to live for duplicates when
 constructing from ranges

Constructors insert ranges while the dynamic type is still the base class, so
that the override in TimedCache was not called and a key that occurs more than
once kept the time of its first occurrence.
---
 include/lru/internal/base-cache.hpp        | 2 ++
 include/lru/internal/information.hpp       | 4 ++++
 include/lru/internal/timed-information.hpp | 5 +++++
 include/lru/timed-cache.hpp                | 7 -------
 4 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index eca007e..8df5402 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -1411,6 +1411,8 @@ class BaseCache {
   virtual void _move_to_front(MapIterator iterator, const Value& new_value) {
     // If the assignment throws, the order must not have changed.
     iterator->second.value = new_value;
+    // Not left to an override, as constructors insert ranges as well.
+    iterator->second.was_updated();
     // Extract the current linked-list node and insert (splice it) at the end
     // The original iterator is not invalidated and now points to the new
     // position (which is still the same node).
diff --git a/include/lru/internal/information.hpp b/include/lru/internal/information.hpp
index 4a28a98..303365d 100644
--- a/include/lru/internal/information.hpp
+++ b/include/lru/internal/information.hpp
@@ -117,6 +117,10 @@ struct Information {
     return !(*this == other);
   }
 
+  /// Called when a new value was assigned to the information.
+  void was_updated() noexcept {
+  }
+
   /// The value of the information.
   Value value;
 
diff --git a/include/lru/internal/timed-information.hpp b/include/lru/internal/timed-information.hpp
index 5a50e67..b0ed1f9 100644
--- a/include/lru/internal/timed-information.hpp
+++ b/include/lru/internal/timed-information.hpp
@@ -106,6 +106,11 @@ struct TimedInformation : public Information<Key, Value> {
     return !(*this == other);
   }
 
+  /// Called when a new value was assigned to the information.
+  void was_updated() noexcept {
+    insertion_time = Internal::Clock::now();
+  }
+
   /// The time at which the key of the information was last insterted into or
   /// updated in a cache.
   Timestamp insertion_time;
diff --git a/include/lru/timed-cache.hpp b/include/lru/timed-cache.hpp
index 64b8cb2..a42926f 100644
--- a/include/lru/timed-cache.hpp
+++ b/include/lru/timed-cache.hpp
@@ -342,13 +342,6 @@ class TimedCache
  private:
   using Clock = Internal::Clock;
 
-  /// \copydoc super::_move_to_front(MapIterator,const Value&)
-  /// \details Also starts a new time to live for the updated key.
-  void _move_to_front(MapIterator iterator, const Value& new_value) override {
-    super::_move_to_front(iterator, new_value);
-    iterator->second.insertion_time = Clock::now();
-  }
-
   /// \returns True if the last accessed object is valid.
   /// \details Next to performing the base cache's action, this method also
   /// checks for expiration of the last accessed key.
-- 
2.43.0


From f67683ac0ba4e4b5ba00b4dabe930d84ce13a11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:31 +0000
Subject: [PATCH 21/23] fix: make entries comparable with entries

---
 include/lru/entry.hpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/lru/entry.hpp b/include/lru/entry.hpp
index 425d7eb..1b6e991 100644
--- a/include/lru/entry.hpp
+++ b/include/lru/entry.hpp
@@ -28,6 +28,18 @@
 
 namespace LRU {
 
+template <typename Key, typename Value>
+struct Entry;
+
+namespace Internal {
+/// Whether a type is an `Entry`.
+template <typename T>
+struct IsEntry : std::false_type {};
+
+template <typename Key, typename Value>
+struct IsEntry<Entry<Key, Value>> : std::true_type {};
+}  // namespace Internal
+
 /// A entry of references to the key and value of an entry in a cache.
 ///
 /// Instances of this class are usually the result of dereferencing an iterator.
@@ -77,7 +89,9 @@ struct Entry final {
   /// \param first The first entry to compare.
   /// \param second The second entry to compare.
   /// \returns True if the first entry equals the second, else false.
-  template <typename Pair, typename = typename Pair::first_type>
+  template <typename Pair,
+            typename = typename Pair::first_type,
+            typename = std::enable_if_t<!Internal::IsEntry<Pair>::value>>
   friend bool operator==(const Pair& first, const Entry& second) noexcept {
     return second == first;
   }
@@ -97,7 +111,9 @@ struct Entry final {
   /// \param first The first entry to compare.
   /// \param second The second entry to compare.fdas
   /// \returns True if the first entry does not equal the second, else false.
-  template <typename Pair, typename = typename Pair::first_type>
+  template <typename Pair,
+            typename = typename Pair::first_type,
+            typename = std::enable_if_t<!Internal::IsEntry<Pair>::value>>
   friend bool operator!=(const Pair& first, const Entry& second) noexcept {
     return second != first;
   }
-- 
2.43.0


From 71af35d8ae651f7081138c130a272ab3f2174a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:25 +0000
Subject: [PATCH 22/23] fix: construct caches from single-pass iterators

---
 include/lru/internal/base-cache.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index 8df5402..5818c0f 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -384,13 +384,14 @@ class BaseCache {
             Iterator end,
             const HashFunction& hash,
             const KeyEqual& key_equal)
-      // This may be expensive
-      : BaseCache(std::max<size_t>(std::distance(begin, end),
-                                   Internal::DEFAULT_CAPACITY),
-                  begin,
-                  end,
-                  hash,
-                  key_equal) {
+  : BaseCache(Internal::DEFAULT_CAPACITY, hash, key_equal) {
+    // Count while inserting, as the iterators may be good for one pass only.
+    size_t distance = 0;
+    for (; begin != end; ++begin) {
+      distance += 1;
+      _capacity = std::max(_capacity, distance);
+      insert(begin->first, begin->second);
+    }
   }
 
   /// Constructor.
-- 
2.43.0


From c0942bf67039e29ab9ffaa5203324cfa8cc8aaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:22 +0000
Subject: [PATCH 23/23] fix: monitor keys that are ranges or iterators
 themselves

---
 include/lru/statistics.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/lru/statistics.hpp b/include/lru/statistics.hpp
index 29b9ce4..01e6c04 100644
--- a/include/lru/statistics.hpp
+++ b/include/lru/statistics.hpp
@@ -76,7 +76,11 @@ class Statistics {
   /// Constructor.
   ///
   /// \param range A range of keys to monitor.
-  template <typename Range, typename = Internal::enable_if_range<Range>>
+  template <typename Range,
+            typename = Internal::enable_if_range<Range>,
+            typename = Internal::enable_if_same<
+                Key,
+                decltype(*std::begin(std::declval<const Range&>()))>>
   explicit Statistics(const Range& range)
   : Statistics(std::begin(range), std::end(range)) {
   }
@@ -86,7 +90,10 @@ class Statistics {
   /// \param begin The start iterator of a range of keys to monitor.
   /// \param end The end iterator of a range of keys to monitor.
   template <typename Iterator,
-            typename = Internal::enable_if_iterator<Iterator>>
+            typename = Internal::enable_if_iterator<Iterator>,
+            typename = Internal::enable_if_same<
+                Key,
+                decltype(*std::declval<Iterator&>())>>
   Statistics(Iterator begin, Iterator end) : Statistics() {
     for (; begin != end; ++begin) {
       monitor(*begin);
-- 
2.43.0

