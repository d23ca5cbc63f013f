// Long histories on caches of any size, against a reference model of its own
// with constant-time operations: what needs many operations or entries to show
// (counters that overflow, sizes beyond 16 bits, many rehashes).
//   --profile Cxx      which kinds of divergence are reported
//   --profile C11wide  one history of more than 2^32 lookups
#include "drive.hpp"
#include "world.hpp"
using namespace vp;

namespace {
Settings g_set;
bool g_wide = false;

struct Abort {};
[[noreturn]] void fail(const char* kind, const std::string& message) {
  if (g_set.kinds.count(kind)) report_failure(kind, message);
  count("foreign_divergences");
  throw Abort{};
}
#define SK(cond, kind, ...) \
  do { if (__builtin_expect(!(cond), 0)) fail(kind, strf(__VA_ARGS__)); } while (0)

template <typename K> K key_of(int i) { return make_id<K>(i); }

template <typename C, typename K, typename V, bool Timed>
struct Soak {
  struct Node { std::list<int>::iterator at; int value; i64 stamp; };
  Rng r;
  std::unique_ptr<C> c;
  std::size_t cap;
  i64 ttl = 0;
  std::list<int> order;                    // oldest first
  std::unordered_map<int, Node> map;
  u64 hits = 0, misses = 0;
  std::map<int, std::pair<u64, u64>> keys; // monitored: hits, misses
  u64 cb_hits = 0, cb_misses = 0, cb_access = 0, cb_value = 0, want_value = 0;
  std::shared_ptr<LRU::Statistics<K>> stats;
  u64 h = 0, evictions = 0, ops = 0, lookups = 0;
  int space;

  explicit Soak(u64 seed) : r(seed) {}

  bool dead(const Node& n) const { return Timed && g_steady_ns - n.stamp > ttl; }

  void drop(int k) {
    auto it = map.find(k);
    order.erase(it->second.at);
    map.erase(it);
  }
  // -1 nothing stored, 0 updated, 1 new, 2 updated although expired
  int store(int k, int v) {
    if (!cap) return -1;
    auto it = map.find(k);
    if (it != map.end()) {
      int res = dead(it->second) ? 2 : 0;
      it->second.value = v;
      it->second.stamp = g_steady_ns;
      order.splice(order.end(), order, it->second.at);
      return res;
    }
    if (map.size() == cap) { drop(order.front()); ++evictions; }
    order.push_back(k);
    map[k] = Node{std::prev(order.end()), v, g_steady_ns};
    return 1;
  }
  // counted lookup in the model; -1 if there is no live entry
  int look(int k) {
    ++lookups;
    auto it = map.find(k);
    bool hit = it != map.end() && !dead(it->second);
    auto m = keys.find(k);
    if (hit) {
      ++hits;
      if (m != keys.end()) ++m->second.first;
      order.splice(order.end(), order, it->second.at);
      want_value += static_cast<u64>(it->second.value);
      return it->second.value;
    }
    ++misses;
    if (m != keys.end()) ++m->second.second;
    return -1;
  }

  int pick() {
    // a few keys are hot
    if (r.chance(1, 3)) return r.below(std::max(1, space / 16));
    return r.below(space);
  }

  void create() {
    static const int caps[] = {1, 2, 3, 7, 50, 127, 128, 129, 255, 256, 257, 1000, 4096, 20000, 65535, 65536, 70000};
    cap = static_cast<std::size_t>(caps[r.below(static_cast<int>(sizeof caps / sizeof *caps))]);
    space = static_cast<int>(cap) + static_cast<int>(cap) / (1 + r.below(4)) + 2;
    if constexpr (Timed) {
      static const i64 ttls[] = {5, 100, 2000, 60000, 100000000};
      ttl = ttls[r.below(5)] * 1000000;
      c = std::make_unique<C>(std::chrono::milliseconds(ttl / 1000000), cap);
    } else {
      c = std::make_unique<C>(cap);
    }
    stats = std::make_shared<LRU::Statistics<K>>();
    for (int i = 0; i < 6; ++i) {
      int k = pick();
      if (!keys.count(k)) { keys[k]; stats->monitor(key_of<K>(k)); }
    }
    c->monitor(stats);
    c->hit_callback([this](const K&, const V& v) { ++cb_hits; cb_value += static_cast<u64>(raw_id(v)); });
    c->miss_callback([this](const K&) { ++cb_misses; });
    c->access_callback([this](const K&, bool hit) { (void)hit; ++cb_access; });
  }

  void audit(bool full) {
    const C& cc = *c;
    SK(cc.size() == map.size(), "SIZE", "size() is %zu after %llu operations, %zu entries are stored", cc.size(), (unsigned long long)ops, map.size());
    SK(cc.capacity() == cap, "SIZE", "capacity() is %zu instead of %zu", cc.capacity(), cap);
    SK(cc.space_left() == cap - map.size(), "SIZE", "space_left() is %zu, expected %zu", cc.space_left(), cap - map.size());
    SK(cc.is_full() == (cap == map.size()) && cc.is_empty() == map.empty(), "SIZE", "is_full() or is_empty() is wrong");
    SK(stats->total_accesses() == hits + misses, "STATS", "total_accesses() is %zu, %llu lookups were made", stats->total_accesses(), (unsigned long long)(hits + misses));
    SK(stats->total_hits() == hits, "STATS", "total_hits() is %zu instead of %llu", stats->total_hits(), (unsigned long long)hits);
    SK(stats->total_misses() == misses, "STATS", "total_misses() is %zu instead of %llu", stats->total_misses(), (unsigned long long)misses);
    if (hits + misses) {
      double rate = static_cast<double>(hits) / static_cast<double>(hits + misses);
      SK(std::abs(stats->hit_rate() - rate) < 1e-9, "STATS", "hit_rate() is %.12f instead of %.12f", stats->hit_rate(), rate);
      SK(std::abs(stats->miss_rate() - (1 - rate)) < 1e-9, "STATS", "miss_rate() is %.12f instead of %.12f", stats->miss_rate(), 1 - rate);
    }
    for (auto& p : keys) {
      K k = key_of<K>(p.first);
      SK(stats->hits_for(k) == p.second.first, "KEYSTATS", "hits_for(%d) is %zu instead of %llu", p.first, stats->hits_for(k), (unsigned long long)p.second.first);
      SK(stats->misses_for(k) == p.second.second, "KEYSTATS", "misses_for(%d) is %zu instead of %llu", p.first, stats->misses_for(k), (unsigned long long)p.second.second);
      SK(stats->accesses_for(k) == p.second.first + p.second.second, "KEYSTATS", "accesses_for(%d) is wrong", p.first);
    }
    SK(cb_hits == hits && cb_misses == misses && cb_access == hits + misses, "CALLBACK",
       "callbacks ran for %llu hits, %llu misses, %llu accesses; expected %llu, %llu, %llu", (unsigned long long)cb_hits, (unsigned long long)cb_misses,
       (unsigned long long)cb_access, (unsigned long long)hits, (unsigned long long)misses, (unsigned long long)(hits + misses));
    SK(cb_value == want_value, "CALLBACK", "hit callbacks were given other values than those stored");
    count("audits");
    if (!full) return;
    auto it = cc.ordered_begin();
    std::size_t n = 0;
    for (int k : order) {
      SK(it != cc.ordered_end(), "ORDER", "ordered iteration ends after %zu of %zu entries", n, map.size());
      SK(raw_id(it->first) == k, "ORDER", "entry %zu in order of use has key %d instead of %d", n, raw_id(it->first), k);
      SK(raw_id(it->second) == map[k].value, "VAL", "key %d has value %d instead of %d", k, raw_id(it->second), map[k].value);
      ++it;
      ++n;
    }
    SK(it == cc.ordered_end(), "ORDER", "ordered iteration goes on after all %zu entries", map.size());
    n = 0;
    for (auto u = cc.begin(); u != cc.end(); ++u, ++n) {
      auto f = map.find(raw_id(u->first));
      SK(f != map.end(), "CONTENT", "unordered iteration shows key %d, which is not stored", raw_id(u->first));
      SK(raw_id(u->second) == f->second.value, "VAL", "unordered iteration shows value %d of key %d instead of %d", raw_id(u->second), raw_id(u->first), f->second.value);
    }
    SK(n == map.size(), "CONTENT", "unordered iteration shows %zu entries, %zu are stored", n, map.size());
    count("full_walks");
    count("entries_walked", n);
  }

  void one_lookup(int k, int api) {
    const C& cc = *c;
    K key = key_of<K>(k);
    bool stored = map.count(k) != 0;
    int want = look(k);
    int got = -1;
    bool found = false;
    try {
      switch (api) {
        case 0: found = c->contains(key); got = want; break;
        case 1: found = cc.contains(key); got = want; break;
        case 2: { auto it = c->find(key); found = it != c->end(); if (found) got = raw_id(it->second); break; }
        case 3: { auto it = cc.find(key); found = it != cc.end(); if (found) got = raw_id(it->second); break; }
        case 4: got = raw_id(c->lookup(key)); found = true; break;
        case 5: got = raw_id(cc.lookup(key)); found = true; break;
        case 6: got = raw_id((*c)[key]); found = true; break;
        default: got = raw_id(cc[key]); found = true; break;
      }
    } catch (const LRU::Error::KeyNotFound&) {
    } catch (const LRU::Error::KeyExpired&) {
      SK(Timed && stored, "ERRTYPE", "KeyExpired for key %d, which is not stored", k);
    }
    SK(found == (want >= 0), Timed && stored ? "TTL" : "RET", "a lookup of key %d reports %d after %llu operations, expected %d", k, found, (unsigned long long)ops, want >= 0);
    if (found) SK(got == want, "VAL", "a lookup of key %d yields %d after %llu operations, expected %d", k, got, (unsigned long long)ops, want);
    h = mix(h, static_cast<u64>(want + 2));
  }

  void step() {
    ++ops;
    int x = r.below(100);
    int k = pick();
    if (x < 40) {
      one_lookup(k, r.below(8));
    } else if (x < 80) {
      int v = r.below(1 << 20);
      bool was_expired = false;
      int m = store(k, v);
      was_expired = m == 2;
      bool ins;
      if (x < 60) { auto res = c->insert(key_of<K>(k), make_id<V>(v)); ins = res.was_inserted(); }
      else { auto res = c->emplace(key_of<K>(k), make_id<V>(v)); ins = res.was_inserted(); }
      if (!was_expired) SK(ins == (m == 1), "INSRES", "storing key %d reports was_inserted() == %d after %llu operations", k, ins, (unsigned long long)ops);
      h = mix(h, static_cast<u64>(m + 2));
    } else if (x < 86) {
      bool have = map.count(k) != 0;
      bool did = c->erase(key_of<K>(k));
      if (have) drop(k);
      SK(did == have, "ERASERES", "erase(%d) returned %d after %llu operations", k, did, (unsigned long long)ops);
    } else if (x < 88) {
      // the oldest or newest entry, by iterator
      if (!order.empty()) {
        if (r.chance(1, 2)) { int o = order.front(); c->erase(c->ordered_begin()); drop(o); }
        else { auto it = c->ordered_end(); --it; int o = order.back(); c->erase(it); drop(o); }
      }
    } else if (x < 94) {
      if (Timed) {
        static const i64 part[] = {1000, 300, 30, 3};
        // whole milliseconds: ages are truncated to the cache's duration type
        g_steady_ns += (ttl / part[r.below(4)] / 1000000 + r.below(2)) * 1000000;
      } else {
        one_lookup(order.empty() ? k : order.back(), r.below(8));
      }
    } else if (x < 95 && r.chance(1, 40)) {
      rare();
    } else {
      one_lookup(k, 0);
    }
  }

  void rare() {
    switch (r.below(9)) {
      case 0: {
        std::size_t n = map.size() - static_cast<std::size_t>(r.below(static_cast<int>(map.size() / 4) + 1));
        c->shrink(n);
        while (map.size() > n) drop(order.front());
        break;
      }
      case 1: {
        std::size_t n = static_cast<std::size_t>(r.in(static_cast<int>(cap / 2), static_cast<int>(cap + cap / 4 + 1)));
        c->capacity(n);
        cap = n;
        while (map.size() > n) drop(order.front());
        break;
      }
      case 2: {
        // go on with a copy
        auto d = std::make_unique<C>(static_cast<const C&>(*c));
        SK(*d == *c, "COPYEQ", "a copy of a cache with %zu entries does not compare equal to it", map.size());
        c = std::move(d);
        count("copies");
        break;
      }
      case 3: {
        auto d = std::make_unique<C>(*c);
        d->clear();
        d->swap(*c);
        SK(c->is_empty(), "MOVE", "swapping with an empty cache leaves entries");
        d->swap(*c);
        count("swaps");
        break;
      }
      case 4:
        if constexpr (Timed) {
          std::size_t want = 0;
          for (auto it = order.begin(); it != order.end();) {
            int k = *it++;
            if (dead(map[k])) { drop(k); ++want; }
          }
          std::size_t got = c->clear_expired();
          SK(got == want, "EXPRES", "clear_expired() returned %zu, %zu entries were expired", got, want);
        }
        break;
      case 5:
        if constexpr (Timed) {
          bool all = true;
          for (auto& p : map) if (!dead(p.second)) { all = false; break; }
          SK(c->all_expired() == all, "EXPQ", "all_expired() is %d with %zu entries", !all, map.size());
          for (int i = 0; i < 20; ++i) {
            int k = pick();
            auto f = map.find(k);
            SK(c->has_expired(key_of<K>(k)) == (f != map.end() && dead(f->second)), "EXPQ", "has_expired(%d) is wrong", k);
          }
        }
        break;
      case 6: {
        // many lookups of one key
        int k = r.chance(1, 2) && !order.empty() ? order.back() : pick();
        if (!keys.empty() && r.chance(1, 2)) k = std::next(keys.begin(), r.below(static_cast<int>(keys.size())))->first;
        int n = r.chance(1, 4) ? 66000 : r.below(3000);
        int api = r.below(8);
        for (int i = 0; i < n; ++i) one_lookup(k, api);
        count("lookups_in_bursts", static_cast<u64>(n));
        break;
      }
      case 7: {
        std::vector<std::pair<K, V>> v;
        std::size_t want = 0;
        // sometimes more new keys than two bytes can count
        int big = r.chance(1, 6) ? 70000 : 0;
        int n = big + r.below(static_cast<int>(std::min<std::size_t>(cap, 3000)) + 2);
        bool fuzzy = false;
        for (int i = 0; i < n; ++i) {
          int k = big ? (i * 7919) % 200000 : pick(), val = r.below(1 << 20);
          v.emplace_back(key_of<K>(k), make_id<V>(val));
          int m = store(k, val);
          if (m == 2) fuzzy = true;
          want += m == 1;
        }
        std::size_t got = r.chance(1, 2) ? c->insert(v) : c->insert(v.begin(), v.end());
        if (!fuzzy) SK(got == want, "BULKRES", "inserting %d pairs returned %zu, %zu keys were new", n, got, want);
        break;
      }
      default: {
        if (r.chance(1, 6)) {
          if (r.chance(1, 2)) c->clear(); else c->shrink(0);
          map.clear();
          order.clear();
        }
        break;
      }
    }
    audit(r.chance(1, 3));
  }

  void run() {
    create();
    int n = r.in(20000, 120000);
    if (r.chance(1, 2)) {
      // fill it first
      for (int i = 0; i < static_cast<int>(cap); ++i) { store(i, i); c->insert(key_of<K>(i), make_id<V>(i)); ++ops; }
      audit(true);
    }
    for (int i = 0; i < n; ++i) {
      step();
      if ((i & 8191) == 8191) audit(r.chance(1, 4));
    }
    audit(true);
    if (g_cov) {
      ++g_cov->evaluations;
      h = mix(mix(h, cap), ops);
      if (evictions) g_cov->distinct.insert(h);
      count("operations", ops);
      count("lookups", lookups);
      count("evictions", evictions);
      count("hits", hits);
      if (map.size() > 65535) count("caches_beyond_65535_entries");
      if (hits > 65535) count("histories_beyond_65535_hits");
      if (misses > 65535) count("histories_beyond_65535_misses");
      if (g_cov->samples.size() < 2)
        g_cov->samples.push_back(strf("case %llu: %s cache, capacity %zu, %llu operations, %llu lookups (%llu hits), %llu evictions: every result, "
                                      "and at intervals contents, order, statistics and callback counts as in the model",
                                      (unsigned long long)g_status->seed, Timed ? "timed" : "untimed", cap, (unsigned long long)ops, (unsigned long long)lookups,
                                      (unsigned long long)hits, (unsigned long long)evictions));
    }
  }
};

// More than 2^32 lookups.
void wide(u64 seed) {
  LRU::Cache<int, int> c(4);
  bool miss = seed & 1;
  c.monitor(1);
  c.insert(1, 5);
  c.insert(2, 6);
  c.contains(miss ? 2 : 1);
  auto& s = c.stats();
  u64 h0 = s.total_hits(), m0 = s.total_misses();
  u64 n = (1ull << 32) + 1000;
  if (miss) c.erase(1);
  u64 good = 0;
  for (u64 i = 0; i < n; ++i) good += c.contains(1);
  SK(good == (miss ? 0 : n), "STATS", "contains(1) was wrong %llu times", (unsigned long long)(miss ? good : n - good));
  SK(s.total_accesses() == h0 + m0 + n, "STATS", "total_accesses() is %zu after %llu lookups", s.total_accesses(), (unsigned long long)(h0 + m0 + n));
  SK(s.total_hits() == h0 + good, "STATS", "total_hits() is %zu instead of %llu", s.total_hits(), (unsigned long long)(h0 + good));
  SK(s.total_misses() == m0 + n - good, "STATS", "total_misses() is %zu", s.total_misses());
  SK(s.accesses_for(1) == n + (miss ? 0 : 1), "KEYSTATS", "accesses_for(1) is %zu", s.accesses_for(1));
  if (g_cov) {
    ++g_cov->evaluations;
    g_cov->distinct.insert(mix(n, miss));
    count("lookups", n);
  }
}

void one_case(u64 seed) {
  g_status->seed = seed;
  g_steady_ns = 1000000000000ll;
  try {
    
    switch ((seed >> 3) % 4) {
      case 0: { Soak<LRU::Cache<int, int>, int, int, false> s(seed); s.run(); break; }
      case 1: { Soak<LRU::Cache<std::string, std::string>, std::string, std::string, false> s(seed); s.run(); break; }
      case 2: { Soak<LRU::TimedCache<int, int>, int, int, true> s(seed); s.run(); break; }
      default: { Soak<LRU::TimedCache<int, std::string, std::chrono::milliseconds>, int, std::string, true> s(seed); s.run(); break; }
    }
  } catch (const Abort&) {
  } catch (const std::exception& e) {
    report_failure("EXCEPTION", std::string("an unexpected exception escaped: ") + e.what());
  }
}
}  // namespace

int main(int argc, char** argv) {
  Args a = parse_args(argc, argv);
  if (a.profile == "C11wide") { g_wide = true; a.profile = "C11"; }
  settings_for(a.profile, g_set);
  g_set.kinds.insert("STATS");
  if (g_wide) g_set.kinds.insert("KEYSTATS");
  if (!g_wide && a.profile != "C11" && a.profile != "C12") g_set.kinds.erase("STATS");
  return drive(a, one_case);
}
