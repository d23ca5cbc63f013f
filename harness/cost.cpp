// C19: what the operations cost, in executed basic blocks (counted by
// -fsanitize-coverage=trace-pc-guard), allocations and copied bytes, for caches
// of growing size. Nothing here depends on time or on the machine.
#include "drive.hpp"
#include <lru/lru.hpp>

#define VP_RAW __attribute__((no_sanitize("coverage")))

// The optimizer does not see that the instrumentation changes g_cost: barrier()
// keeps what is measured between the two readings.
vp::u64 g_cost = 0;
vp::u64 sink = 0;
static inline void barrier() { asm volatile("" ::: "memory"); }
extern "C" {
VP_RAW void __sanitizer_cov_trace_pc_guard_init(std::uint32_t* a, std::uint32_t* b) {
  for (; a < b; ++a) *a = 1;
}
VP_RAW void __sanitizer_cov_trace_pc_guard(std::uint32_t*) { ++g_cost; }
// Moving a whole block of memory is work too.
VP_RAW __attribute__((no_builtin)) void* memmove(void* d, const void* s, std::size_t n) {
  g_cost += n / 32;
  auto* x = static_cast<unsigned char*>(d);
  auto* y = static_cast<const unsigned char*>(s);
  if (x < y) for (std::size_t i = 0; i < n; ++i) x[i] = y[i];
  else for (std::size_t i = n; i > 0; --i) x[i - 1] = y[i - 1];
  return d;
}
VP_RAW __attribute__((no_builtin)) void* memcpy(void* d, const void* s, std::size_t n) {
  g_cost += n / 32;
  auto* x = static_cast<unsigned char*>(d);
  auto* y = static_cast<const unsigned char*>(s);
  for (std::size_t i = 0; i < n; ++i) x[i] = y[i];
  return d;
}
VP_RAW __attribute__((no_builtin)) void* memset(void* d, int c, std::size_t n) {
  g_cost += n / 32;
  auto* x = static_cast<unsigned char*>(d);
  for (std::size_t i = 0; i < n; ++i) x[i] = static_cast<unsigned char>(c);
  return d;
}
}

namespace vp {
namespace {

template <typename K> K make_key(u64 i);
template <> u64 make_key<u64>(u64 i) { return mix(i, 12345); }
template <> std::string make_key<std::string>(u64 i) { 
  char text[40];   // all of one length
  snprintf(text, sizeof text, "%08llx-key-%012llu", (unsigned long long)(mix(i, 777) & 0xffffffff), (unsigned long long)i);
  return text;
}

template <typename K>
struct GoodHash {
  std::size_t operator()(const K& k) const {
    if constexpr (std::is_same<K, u64>::value) return mix(k, 99);
    else return std::hash<K>()(k);
  }
};

struct Setup {
  bool stats, keystats, callbacks;
  int history;   // how the cache came to be full
};
struct Measurement {
  const char* name;
  bool linear;
  double cost;   // per operation, or per entry for linear ones
};

template <typename C, typename K, bool Timed>
struct Bench {
  std::size_t n;
  Setup set;
  Rng rng;
  u64 next_key = 0;
  std::vector<Measurement> result;
  std::vector<u64> live;   // numbers of the stored keys, oldest first
  std::shared_ptr<LRU::Statistics<K>> stats;
  std::unique_ptr<C> c;
  u64 calls = 0;

  Bench(std::size_t size, const Setup& s, u64 seed) : n(size), set(s), rng(seed) {}

  std::unique_ptr<C> fresh(std::size_t cap) {
    std::unique_ptr<C> r;
    if constexpr (Timed) r.reset(new C(std::chrono::hours(1), cap));
    else r.reset(new C(cap));
    return r;
  }
  K key(u64 i) { return make_key<K>(i); }

  template <typename F>
  void measure(const char* name, std::size_t times, F f) {
    // f(i) prepares nothing: keys are made beforehand
    u64 allocs = g_allocs, cost = g_cost;
    barrier();
    for (std::size_t i = 0; i < times; ++i) { f(i); barrier(); }
    double total = static_cast<double>(g_cost - cost) + 10.0 * static_cast<double>(g_allocs - allocs);
    result.push_back({name, false, total / static_cast<double>(times)});
    count("operations_measured", times);
  }
  template <typename F>
  void measure_linear(const char* name, std::size_t entries, F f) {
    u64 allocs = g_allocs, cost = g_cost;
    barrier();
    f();
    barrier();
    double total = static_cast<double>(g_cost - cost) + 10.0 * static_cast<double>(g_allocs - allocs);
    result.push_back({name, true, total / static_cast<double>(entries)});
    count("operations_measured");
  }

  // The keys stored, oldest first, as the cache says.
  std::vector<K> stored() {
    std::vector<K> v;
    for (auto it = c->ordered_begin(); it != c->ordered_end(); ++it) v.push_back(it->first);
    return v;
  }
  std::vector<K> absent(std::size_t m) {
    std::vector<K> v;
    for (std::size_t i = 0; i < m; ++i) v.push_back(key(next_key++));
    return v;
  }
  std::vector<K> some(std::size_t m) {
    auto all = stored();
    std::vector<K> v;
    for (std::size_t i = 0; i < m; ++i) v.push_back(all[static_cast<std::size_t>(rng.below(static_cast<int>(all.size())))]);
    return v;
  }

  void fill() {
    c = fresh(n);
    auto keys = absent(n);
    measure("insert into a growing cache", n, [&](std::size_t i) { c->insert(keys[i], i); });
    switch (set.history) {
      case 0: break;
      case 1: {   // many evictions
        auto more = absent(n + 10);
        for (auto& k : more) c->insert(k, 1);
        break;
      }
      case 2: {   // erased in random order and filled again
        auto v = some(n / 2);
        for (auto& k : v) c->erase(k);
        auto more = absent(n);
        for (auto& k : more) c->emplace(k, 2);
        break;
      }
      case 3: {   // was larger once
        c->capacity(2 * n);
        auto more = absent(2 * n);
        for (auto& k : more) c->insert(k, 1);
        c->capacity(n);
        break;
      }
      case 4: {   // a copy
        auto copy = std::make_unique<C>(*c);
        c = std::move(copy);
        break;
      }
      case 5: {   // cleared and filled again
        c->clear();
        auto more = absent(n);
        for (auto& k : more) c->insert(k, 1);
        break;
      }
      case 6: {   // shuffled by lookups
        auto v = some(n);
        for (auto& k : v) c->contains(k);
        break;
      }
      case 8: {   // was full while small, and grew
        c = fresh(n / 64);
        auto more = absent(n);
        for (std::size_t i = 0; i < n / 32; ++i) c->insert(more[i], 1);
        c->capacity(n / 8);
        for (std::size_t i = n / 32; i < n / 4; ++i) c->insert(more[i], 1);
        c->capacity(n);
        measure("insert after the capacity grew", n, [&](std::size_t i) { c->insert(more[i], i); });
        break;
      }
      case 9: {   // assigned from a range
        c = fresh(2);
        auto more = absent(n);
        c->insert(more[0], 1);
        std::vector<std::pair<K, u64>> pairs;
        for (auto& k : more) pairs.emplace_back(k, 3);
        measure_linear("assignment of a range", n, [&] { *c = pairs; });
        break;
      }
      case 10: {   // assigned from another cache, which grew after that
        auto other = fresh(n / 16);
        *c = *other;
        c->capacity(n / 2);
        auto more = absent(n);
        for (std::size_t i = 0; i < n / 2; ++i) c->insert(more[i], 1);
        other->swap(*c);
        other->capacity(n);
        c = std::move(other);
        measure("insert after assignment and swap", n, [&](std::size_t i) { c->insert(more[i], i); });
        break;
      }
      case 11: {   // emptied by erasing, shrinking or expiry
        auto half = some(n / 2);
        for (auto& k : half) c->erase(k);
        c->shrink(n / 5);
        if constexpr (Timed) {
          g_steady_ns += 4000ll * 1000000000ll;
          c->clear_expired();
        } else {
          c->capacity(0);
          c->capacity(n);
        }
        auto more = absent(n);
        measure("insert into an emptied cache", n, [&](std::size_t i) { c->insert(more[i], i); });
        break;
      }
      default: {   // came by swap
        auto other = fresh(3);
        other->swap(*c);
        c = std::move(other);
        break;
      }
    }
    if (set.stats) {
      stats = std::make_shared<LRU::Statistics<K>>();
      if (set.keystats) for (auto& k : some(n / 2)) stats->monitor(k);
      c->monitor(stats);
    }
    if (set.callbacks) {
      c->hit_callback([this](const K&, const u64&) { ++calls; });
      c->miss_callback([this](const K&) { ++calls; });
      c->access_callback([this](const K&, bool) { ++calls; });
    }
  }

  void run() {
    fill();
    const std::size_t m = 1500;
    C& x = *c;
    const C& cx = *c;
    // ---- lookups, by where the key lies in the order and by outcome
    auto random_keys = some(m);
    auto missing = absent(m);
    measure("contains, any key", m, [&](std::size_t i) { sink += x.contains(random_keys[i]); });
    measure("contains, absent key", m, [&](std::size_t i) { sink += x.contains(missing[i]); });
    measure("find, any key", m, [&](std::size_t i) { sink += x.find(random_keys[i]) != x.end(); });
    measure("find const, any key", m, [&](std::size_t i) { sink += cx.find(random_keys[i]) != cx.end(); });
    measure("find, absent key", m, [&](std::size_t i) { sink += x.find(missing[i]) != x.end(); });
    measure("lookup, any key", m, [&](std::size_t i) { sink += x.lookup(random_keys[i]); });
    measure("lookup const, any key", m, [&](std::size_t i) { sink += cx.lookup(random_keys[i]); });
    measure("[], any key", m, [&](std::size_t i) { sink += x[random_keys[i]]; });
    measure("[] const, any key", m, [&](std::size_t i) { sink += cx[random_keys[i]]; });
    measure("lookup, absent key", m / 5, [&](std::size_t i) { try { sink += x.lookup(missing[i]); } catch (const LRU::Error::KeyNotFound&) { ++sink; } });
    {
      auto all = stored();   // in order: always the oldest one
      std::size_t k = std::min(m, all.size());
      measure("lookup, oldest key", k, [&](std::size_t i) { sink += x.lookup(all[i]); });
      all = stored();
      measure("find, oldest key", k, [&](std::size_t i) { sink += x.find(all[i]) != x.end(); });
      all = stored();
      measure("contains, the two newest keys", m, [&](std::size_t i) { sink += x.contains(all[all.size() - 1 - (i & 1)]); });
      measure("contains, last key again", m, [&](std::size_t) { sink += x.contains(all.back()); });
      measure("lookup, last key again", m, [&](std::size_t) { sink += cx.lookup(all.back()); });
    }
    // ---- storing
    measure("insert, present key", m, [&](std::size_t i) { sink += x.insert(random_keys[i], i).was_inserted(); });
    measure("emplace, present key", m, [&](std::size_t i) { sink += x.emplace(random_keys[i], i).was_inserted(); });
    {
      auto all = stored();
      std::size_t k = std::min(m, all.size());
      measure("insert, oldest key", k, [&](std::size_t i) { sink += x.insert(all[i], i).was_inserted(); });
      measure("insert, last key again", m, [&](std::size_t i) { sink += x.insert(all[k - 1], i).was_inserted(); });
    }
    {
      auto fresh_keys = absent(3 * m);
      measure("insert with eviction", m, [&](std::size_t i) { sink += x.insert(fresh_keys[i], i).was_inserted(); });
      measure("emplace with eviction", m, [&](std::size_t i) { sink += x.emplace(fresh_keys[m + i], i).was_inserted(); });
      std::vector<std::pair<K, u64>> pairs;
      for (std::size_t i = 0; i < m; ++i) pairs.emplace_back(fresh_keys[2 * m + i], i);
      std::size_t at = 0;
      measure("bulk insertion, per ten pairs", m / 10, [&](std::size_t) { sink += x.insert(pairs.begin() + static_cast<long>(at), pairs.begin() + static_cast<long>(at) + 10); at += 10; });
    }
    // ---- size queries
    measure("size queries", m, [&](std::size_t) { sink += cx.size() + cx.capacity() + cx.is_empty() + cx.is_full() + cx.space_left(); });
    // ---- iterator steps
    {
      std::size_t k = std::min<std::size_t>(m, x.size() - 1);
      auto o = x.ordered_begin();
      measure("ordered ++ and access", k, [&](std::size_t) { sink += o->second; ++o; });
      auto b = x.ordered_end();
      measure("ordered -- and access", k, [&](std::size_t) { --b; sink += (*b).value(); });
      auto oc = cx.ordered_begin();
      measure("ordered const ++ and key()", k, [&](std::size_t) { sink += oc.key() == random_keys[0]; oc++; });
      auto u = x.unordered_begin();
      measure("unordered ++ and access", k, [&](std::size_t) { sink += u->second; ++u; });
      auto uc = cx.unordered_begin();
      measure("unordered const ++ and value()", k, [&](std::size_t) { sink += uc.value(); uc++; });
      // one entry's iterator: validity, expiry, conversion, comparison
      std::vector<typename C::UnorderedIterator> its;
      for (auto w = x.unordered_begin(); w != x.unordered_end() && its.size() < 4 * m; ++w) its.push_back(w);
      const std::size_t all = its.size();
      measure("validity of iterators", all, [&](std::size_t i) { sink += cx.is_valid(its[i]); cx.throw_if_invalid(its[i]); });
      measure("iterator conversion and comparison", all, [&](std::size_t i) { typename C::OrderedIterator o2(its[i]); sink += o2 == its[i]; sink += its[i] != o2; });
      measure("validity of ordered iterators", all, [&](std::size_t i) { typename C::OrderedIterator o2(its[i]); sink += cx.is_valid(o2); cx.throw_if_invalid(o2); });
      if constexpr (Timed) {
        measure("expiry of one entry, iterators", all, [&](std::size_t i) { typename C::OrderedIterator o2(its[i]); sink += cx.has_expired(its[i]) + cx.has_expired(o2); });
        measure("expiry of one entry", m, [&](std::size_t i) { sink += cx.has_expired(random_keys[i]); });
      }
      if constexpr (!Timed) measure("front and back", m, [&](std::size_t) { sink += (x.front() == x.back()); });
      measure("begin and end", m, [&](std::size_t) { sink += (x.ordered_begin() == x.ordered_end()) + (x.begin() == x.end()); });
    }
    // ---- whole caches change hands
    {
      auto other = fresh(7);
      other->insert(random_keys[0], 1);
      measure("swap", 20, [&](std::size_t i) { if (i & 1) x.swap(*other); else { using std::swap; swap(x, *other); } });
      auto second_owner = fresh(3);
      C& second = *second_owner;
      measure("move assignment", 20, [&](std::size_t i) { if (i & 1) x = std::move(second); else second = std::move(x); });
      measure("move construction", 20, [&](std::size_t) { C third(std::move(x)); x = std::move(third); });
    }
    // ---- statistics
    if (stats && set.keystats) {
      const auto& st = cx.stats();
      measure("statistics queries", m, [&](std::size_t i) { sink += st.total_hits() + st.is_monitoring(random_keys[i]) + st.number_of_monitored_keys(); });
    }
    // ---- linear ones
    {
      std::unique_ptr<C> copy;
      measure_linear("copy construction", n, [&] { copy.reset(new C(cx)); });
      measure_linear("comparison, equal", n, [&] { sink += *copy == x; });
      auto other = fresh(5);
      measure_linear("copy assignment", n, [&] { *other = cx; });
      auto back = stored();
      auto fourth = fresh(2 * n);   // another hash layout
      for (auto it = x.ordered_begin(); it != x.ordered_end(); ++it) fourth->insert(it->first, it->second);
      measure_linear("comparison, equal, other layout", n, [&] { sink += *fourth == x; });
      fourth->insert(back[0], x.lookup(back[0]) + 1);
      measure_linear("comparison, different", n, [&] { sink += *fourth != x; });
      measure_linear("shrink to a half", n / 2, [&] { copy->shrink(n / 2); });
      measure_linear("clear", n, [&] { other->clear(); });
      measure_linear("capacity to a quarter", 3 * n / 4, [&] { fourth->capacity(n / 4); });
      if constexpr (Timed) {
        auto third = std::make_unique<C>(cx);
        g_steady_ns += 4000ll * 1000000000ll;
        third->clear_expired();   // no bound is stated: only that it ends
        g_steady_ns -= 4000ll * 1000000000ll;
      }
    }
    // ---- erasing, from a full cache each time
    {
      std::size_t k = n / 4;
      auto v = stored();
      measure("erase by key, oldest", k, [&](std::size_t i) { sink += x.erase(v[i]); });
      measure("erase by key, absent", k, [&](std::size_t i) { sink += x.erase(v[i]); });
      measure("erase by key, newest", k, [&](std::size_t i) { sink += x.erase(v[v.size() - 1 - i]); });
      auto rest = stored();
      for (std::size_t i = rest.size(); i > 1; --i) std::swap(rest[i - 1], rest[static_cast<std::size_t>(rng.below(static_cast<int>(i)))]);
      std::size_t q = n / 8;
      measure("find and erase by iterator", q, [&](std::size_t i) { x.erase(x.find(rest[i])); });
      measure("erase by key, any", q, [&](std::size_t i) { sink += x.erase(rest[q + i]); });
      measure("erase by ordered iterator, oldest", q, [&](std::size_t) { x.erase(x.ordered_begin()); });
      measure("insert into a cache with room", k, [&](std::size_t i) { sink += x.insert(v[i], i).was_inserted(); });
    }
    count("entries_in_measured_caches", n);
  }
};

void compare(const char* name, const Setup& set, u64 seed, bool trace, const std::size_t* sizes, const std::vector<std::vector<Measurement>>& all);

// Calls of wrapped functions: argument lists hashed by the library itself, which
// differ in one argument only, whichever it is, or in all of them.
template <typename Make>
std::vector<Measurement> wrapped_costs(std::size_t n, Rng& rng, Make make) {
  std::vector<Measurement> result;
  static const char* const names[] = {"wrapped call, first argument varies", "wrapped call, second argument varies",
                                      "wrapped call, third argument varies", "wrapped call, all arguments vary"};
  const std::size_t m = 1500;
  for (int varies = 0; varies < 4; ++varies) {
    u64 originals = 0;
    auto w = make(n, &originals);
    auto call = [&](std::size_t i) {
      int x = static_cast<int>(i);
      switch (varies) {
        case 0: return w(x, 7l, std::string("text"));
        case 1: return w(3, long(x), std::string("text"));
        case 2: return w(3, 7l, make_key<std::string>(i));
        default: return w(x % 5, long(x), make_key<std::string>(i));
      }
    };
    auto measured = [&](const char* what, std::size_t times, auto pick) {
      std::vector<std::size_t> which;
      for (std::size_t i = 0; i < times; ++i) which.push_back(pick(i));
      u64 allocs = g_allocs, cost = g_cost;
      barrier();
      for (std::size_t i : which) { sink += static_cast<u64>(call(i)); barrier(); }
      double total = static_cast<double>(g_cost - cost) + 10.0 * static_cast<double>(g_allocs - allocs);
      result.push_back({what, false, total / static_cast<double>(times)});
      count("operations_measured", times);
    };
    measured(names[varies], n, [](std::size_t i) { return i; });
    if (originals != n) report_failure("COST", strf("the original ran %llu times for %zu argument lists", (unsigned long long)originals, n));
    measured(names[varies], m, [&](std::size_t) { return static_cast<std::size_t>(rng.below(static_cast<int>(n))); });
    measured(names[varies], m, [&](std::size_t i) { return n + i; });
    count("wrapped_calls_measured", n + 2 * m);
  }
  return result;
}

template <typename C, typename K, bool Timed>
void cost_case(const char* name, const Setup& set, u64 seed, bool trace, bool big) {
  const std::size_t sizes[] = {256, 4096, big ? 262144u : 32768u};
  std::vector<std::vector<Measurement>> all;
  for (auto n : sizes) {
    Bench<C, K, Timed> b(n, set, seed);
    b.run();
    all.push_back(b.result);
  }
  compare(name, set, seed, trace, sizes, all);
}
void wrapped_case(bool timed, u64 seed, bool trace, bool big) {
  const std::size_t sizes[] = {256, 4096, big ? 131072u : 16384u};
  std::vector<std::vector<Measurement>> all;
  Rng rng(seed);
  for (auto n : sizes)
    all.push_back(timed ? wrapped_costs(n, rng, [](std::size_t cap, u64* calls) {
      return LRU::timed_wrap([calls](int a, long b, const std::string& c) { ++*calls; return a + b + static_cast<long>(c.size()); }, std::chrono::hours(1), cap);
    }) : wrapped_costs(n, rng, [](std::size_t cap, u64* calls) {
      return LRU::wrap([calls](int a, long b, const std::string& c) { ++*calls; return a + b + static_cast<long>(c.size()); }, cap);
    }));
  compare(timed ? "timed wrapped function" : "wrapped function", Setup{false, false, false, 0}, seed, trace, sizes, all);
}
void compare(const char* name, const Setup& set, u64 seed, bool trace, const std::size_t* sizes, const std::vector<std::vector<Measurement>>& all) {
  u64 hash = mix(seed % 5, static_cast<u64>(set.history));
  std::string text;
  for (std::size_t i = 0; i < all[0].size(); ++i) {
    const Measurement &a = all[0][i], &b = all[1][i], &c = all[2][i];
    if (trace && !i) printf("%s history %d\n", name, set.history);
    if (trace) printf("%-40s %10.2f %10.2f %10.2f\n", a.name, a.cost, b.cost, c.cost);
    if (text.size() < 900) text += strf("%s %.1f/%.1f/%.1f; ", a.name, a.cost, b.cost, c.cost);
    // On the code as it is they differ by less than one percent.
    for (const Measurement* big : {&b, &c})
      if (big->cost > 1.25 * a.cost + 8)
        report_failure("COST", strf("%s, %s%s: %s costs %.1f basic blocks per %s with 256 entries, %.1f with 4096, %.1f with %zu (history %d)", name,
                                    set.stats ? "statistics, " : "", set.callbacks ? "callbacks" : "no callbacks", a.name, a.cost,
                                    a.linear ? "entry" : "operation", b.cost, c.cost, sizes[2], set.history));
    hash = mix(hash, static_cast<u64>(c.cost));
    count("costs_compared");
  }
  if (g_cov) {
    ++g_cov->evaluations;
    g_cov->distinct.insert(mix(hash, seed));
    if (g_cov->samples.empty())
      g_cov->samples.push_back(strf("%s, history %d, cost with 256/4096/%zu entries: ", name, set.history, sizes[2]) + text);
  }
}
}  // namespace
}  // namespace vp

using namespace vp;
int main(int argc, char** argv) {
  Args a = parse_args(argc, argv);
  return drive(a, [&](u64 seed) {
    g_status->seed = seed;
    g_steady_ns = 1000000000000ll;
    Rng r(seed);
    Setup s{r.chance(1, 2), r.chance(1, 2), r.chance(1, 3), r.below(12)};
    switch (r.below(5)) {
      case 4: wrapped_case(r.chance(1, 3), seed, a.trace, a.profile == "C19big"); break;
      case 0: cost_case<LRU::Cache<u64, u64, GoodHash<u64>>, u64, false>("cache of integers", s, seed, a.trace, a.profile == "C19big"); break;
      case 1: cost_case<LRU::Cache<std::string, u64, GoodHash<std::string>>, std::string, false>("cache of strings", s, seed, a.trace, a.profile == "C19big"); break;
      case 2: cost_case<LRU::TimedCache<u64, u64, std::chrono::duration<double, std::milli>, GoodHash<u64>>, u64, true>("timed cache of integers", s, seed, a.trace, a.profile == "C19big"); break;
      default: cost_case<LRU::TimedCache<std::string, u64, std::chrono::milliseconds, GoodHash<std::string>>, std::string, true>("timed cache of strings", s, seed, a.trace, a.profile == "C19big"); break;
    }
  });
}
