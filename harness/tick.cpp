// Timed caches while time passes between any two readings of the clock (C09,
// C10, C11, C13): whatever the outcome of an operation is, it must be one that
// some moment during the operation justifies, and the statistics and callbacks
// must tell the same story as the result.
#include "drive.hpp"
#include <lru/lru.hpp>

namespace vp {

// A range of pairs for whose elements time passes, and which knows when each of
// them was current.
struct Slow {
  std::vector<std::pair<int, int>> pairs;
  std::vector<i64> from, until;
  i64 jump = 0;
  struct It {
    using iterator_category = std::forward_iterator_tag;
    using value_type = std::pair<int, int>;
    using difference_type = std::ptrdiff_t;
    using pointer = value_type*;
    using reference = value_type&;
    Slow* s = nullptr;
    std::size_t i = 0;
    reference operator*() const { return s->pairs[i]; }
    pointer operator->() const { return &s->pairs[i]; }
    It& operator++() {
      s->until[i] = g_steady_ns;
      g_steady_ns += s->jump;
      ++i;
      s->from[i] = g_steady_ns;
      return *this;
    }
    It operator++(int) { It r = *this; ++*this; return r; }
    bool operator==(const It& o) const { return i == o.i; }
    bool operator!=(const It& o) const { return i != o.i; }
  };
  It begin() const { const_cast<Slow*>(this)->from[0] = g_steady_ns; return It{const_cast<Slow*>(this), 0}; }
  It end() const { return It{const_cast<Slow*>(this), pairs.size()}; }
};

template <typename Dur>
struct TickCase {
  using C = LRU::TimedCache<int, int, Dur>;
  struct Ent { int k, v; i64 lo, hi; };    // stored at some time in [lo, hi]
  const std::set<std::string>& kinds;
  Rng rng;
  std::unique_ptr<C> c;
  std::vector<Ent> order;
  std::size_t cap;
  i64 ttl;
  u64 hash = 11, step = 0;
  bool nontrivial = false;
  int next = 1, universe;
  std::shared_ptr<LRU::Statistics<int>> stats;
  u64 accesses = 0, hits = 0;
  std::map<int, std::pair<u64, u64>> keyed;
  int n_hit = 0, n_miss = 0, n_access = 0, cb_key = 0, cb_val = 0;
  bool cb_flag = false, has_cb = false;
  i64 b = 0;      // clock when the operation in progress began

  TickCase(const std::set<std::string>& k, u64 seed) : kinds(k), rng(seed) {
    g_steady_ns = 1000000000000ll + static_cast<i64>(seed % 100000);
  }
  ~TickCase() { g_tick_ns = 0; }

  [[noreturn]] void fail(const char* kind, const std::string& m) {
    g_status->op = step;
    if (!kinds.count(kind)) throw CaseAbort{};
    report_failure(kind, m);
  }
  void ev(const char* name) {
    count(name);
    u64 h = 0;
    for (const char* p = name; *p; ++p) h = h * 31 + static_cast<unsigned char>(*p);
    hash = mix(hash, h);
  }
  int find(int k) {
    for (std::size_t i = 0; i < order.size(); ++i)
      if (order[i].k == k) return static_cast<int>(i);
    return -1;
  }
  // Only whole ticks of the duration type count; the margin covers the rest.
  static constexpr i64 margin = std::is_floating_point<typename Dur::rep>::value ? 0 : 1000000000ll * Dur::period::num / Dur::period::den;
  bool may_live(const Ent& e) { return b - e.hi <= ttl + margin; }
  bool may_be_expired(const Ent& e) { return g_steady_ns - e.lo > ttl; }
  const char* age(const Ent& e) {
    static thread_local char text[160];
    snprintf(text, sizeof text, "age between %lld and %lld of %lld ns", (long long)(b - e.hi), (long long)(g_steady_ns - e.lo), (long long)ttl);
    return text;
  }

  void begin() { b = g_steady_ns; n_hit = n_miss = n_access = 0; }
  void lookup_done(int k, bool hit, int value, bool value_known, const char* how) {
    int i = find(k);
    if (hit) {
      if (i < 0) fail("TTL", strf("%s finds key %d, which is not stored", how, k));
      Ent e = order[static_cast<std::size_t>(i)];
      if (!may_live(e)) fail("TTL", strf("%s finds key %d although it has expired: %s", how, k, age(e)));
      if (value_known && value != e.v) fail("TTL", strf("%s gives value %d for key %d instead of %d", how, value, k, e.v));
      order.erase(order.begin() + i);
      order.push_back(e);
      if (may_be_expired(e)) { ev("hits_on_the_edge"); nontrivial = true; }
    } else {
      if (i >= 0 && !may_be_expired(order[static_cast<std::size_t>(i)]))
        fail("TTL", strf("%s does not find key %d although it lives: %s", how, k, age(order[static_cast<std::size_t>(i)])));
      if (i >= 0) {
        if (may_live(order[static_cast<std::size_t>(i)])) { ev("misses_on_the_edge"); nontrivial = true; }
        else ev("misses_of_expired");
      }
    }
    if (stats) {
      ++accesses;
      if (hit) ++hits;
      auto it = keyed.find(k);
      if (it != keyed.end()) (hit ? it->second.first : it->second.second)++;
      check_stats(how, k, hit);
    }
    if (has_cb) {
      if (n_access != 1 || n_hit != (hit ? 1 : 0) || n_miss != (hit ? 0 : 1) || cb_flag != hit)
        fail("CALLBACK", strf("%s of key %d %s, but %d hit, %d miss and %d access callbacks ran (told %s)", how, k,
                              hit ? "hit" : "missed", n_hit, n_miss, n_access, cb_flag ? "hit" : "miss"));
      if (cb_key != k || (hit && cb_val != order.back().v)) fail("CALLBACK", strf("callback of %s got key %d value %d", how, cb_key, cb_val));
    }
    ev(hit ? "hits" : "misses");
  }
  void check_stats(const char* how, int k, bool hit) {
    if (stats->total_accesses() != accesses || stats->total_hits() != hits || stats->total_misses() != accesses - hits)
      fail("STATS", strf("%s of key %d %s: statistics show %zu accesses, %zu hits, %zu misses, expected %llu, %llu, %llu", how, k,
                         hit ? "hit" : "missed", stats->total_accesses(), stats->total_hits(), stats->total_misses(),
                         (unsigned long long)accesses, (unsigned long long)hits, (unsigned long long)(accesses - hits)));
    for (auto& p : keyed)
      if (stats->hits_for(p.first) != p.second.first || stats->misses_for(p.first) != p.second.second)
        fail("KEYSTATS", strf("%s: statistics of key %d are %zu hits, %zu misses, expected %llu, %llu", how, p.first,
                              stats->hits_for(p.first), stats->misses_for(p.first), (unsigned long long)p.second.first, (unsigned long long)p.second.second));
  }
  void quiet(const char* what) {
    if (n_hit || n_miss || n_access) fail("CALLBACK", strf("%s ran callbacks", what));
    if (stats) check_stats(what, -1, false);
  }
  void contents(const char* what) {
    i64 save = g_tick_ns;
    std::size_t i = 0;
    for (auto it = c->ordered_begin(); it != c->ordered_end(); ++it, ++i)
      if (i >= order.size() || it->first != order[i].k || it->second != order[i].v)
        fail("CONTENT", strf("after %s entry %zu is %d=%d, expected %d=%d", what, i, it->first, it->second,
                             i < order.size() ? order[i].k : -1, i < order.size() ? order[i].v : -1));
    if (i != order.size()) fail("CONTENT", strf("after %s %zu entries, expected %zu", what, i, order.size()));
    g_tick_ns = save;
  }

  Slow slow_range() {
    Slow s;
    int n = rng.in(0, 8);
    for (int i = 0; i < n; ++i) s.pairs.emplace_back(rng.below(universe), next++);
    s.from.assign(s.pairs.size() + 1, 0);
    s.until.assign(s.pairs.size() + 1, 0);
    s.jump = rng.chance(1, 3) ? 0 : ttl / rng.in(1, 6);
    return s;
  }
  void slow_stored(const Slow& s) {
    for (std::size_t j = 0; j < s.pairs.size(); ++j) {
      int i = find(s.pairs[j].first);
      if (i >= 0) { order.erase(order.begin() + i); ev("stored_again_in_bulk"); }
      else if (order.size() >= cap) order.erase(order.begin());
      order.push_back({s.pairs[j].first, s.pairs[j].second, s.from[j], s.until[j]});
    }
    ev("bulk");
  }
  // Construction from a range, like insertion of its elements one by one.
  void construct() {
    auto d = std::chrono::nanoseconds(ttl);
    Slow s = slow_range();
    begin();
    auto given = s.pairs;
    switch (rng.below(6)) {
      case 0: c = std::make_unique<C>(d, cap, s.begin(), s.end()); break;
      case 1: c = std::make_unique<C>(d, s.begin(), s.end()); cap = std::max<std::size_t>(128, given.size()); break;
      case 2: c = std::make_unique<C>(d, cap, s); break;
      case 3: c = std::make_unique<C>(d, s); cap = std::max<std::size_t>(128, given.size()); break;
      case 4: c = std::make_unique<C>(d, cap, std::move(s)); break;
      default: c = std::make_unique<C>(d, std::move(s)); cap = given.size(); break;
    }
    // (the moved-from range is only read through)
    if (c->capacity() != cap) throw CaseAbort{};
    slow_stored(s);
    if (!cap) { c->capacity(3); cap = 3; order.clear(); }
  }

  void op() {
    ++step;
    int k = rng.below(universe);
    if (rng.chance(1, 2) && !order.empty()) k = order[static_cast<std::size_t>(rng.below(static_cast<int>(order.size())))].k;
    int what = rng.below(100);
    const C& cc = *c;
    if (what < 30) {
      int v = next++;
      begin();
      if (rng.chance(1, 2)) c->insert(k, v);
      else c->emplace(k, v);
      int i = find(k);
      if (i >= 0) { order.erase(order.begin() + i); ev("stored_again"); }
      else if (order.size() >= cap) order.erase(order.begin());
      order.push_back({k, v, b, g_steady_ns});
      quiet("insert");
    } else if (what < 40) {
      begin();
      auto it = c->find(k);
      bool hit = it != c->end();
      lookup_done(k, hit, hit ? it->second : 0, hit, "find");
    } else if (what < 47) {
      begin();
      auto it = cc.find(k);
      bool hit = it != cc.end();
      lookup_done(k, hit, hit ? it->second : 0, hit, "const find");
    } else if (what < 59) {
      begin();
      bool hit = cc.contains(k);
      lookup_done(k, hit, 0, false, "contains");
    } else if (what < 76) {
      begin();
      bool hit = true;
      int v = 0;
      const char* how = "lookup";
      try {
        switch (rng.below(4)) {
          case 0: v = c->lookup(k); break;
          case 1: how = "const lookup"; v = cc.lookup(k); break;
          case 2: how = "operator[]"; v = (*c)[k]; break;
          default: how = "const operator[]"; v = cc[k]; break;
        }
      } catch (const LRU::Error::KeyNotFound&) {
        hit = false;
      } catch (const LRU::Error::KeyExpired&) {
        hit = false;
      }
      lookup_done(k, hit, v, hit, how);
    } else if (what < 80) {
      begin();
      bool x = cc.has_expired(k);
      int i = find(k);
      if (x && (i < 0 || !may_be_expired(order[static_cast<std::size_t>(i)]))) fail("EXPQ", strf("has_expired(%d) is true", k));
      if (!x && i >= 0 && !may_live(order[static_cast<std::size_t>(i)])) fail("EXPQ", strf("has_expired(%d) is false", k));
      quiet("has_expired");
    } else if (what < 84) {
      begin();
      std::size_t n = c->clear_expired();
      std::size_t before = order.size();
      std::set<int> left;
      for (auto it = c->unordered_begin(); it != c->unordered_end(); ++it) left.insert(it->first);
      std::vector<Ent> keep;
      for (auto& e : order) {
        bool kept = left.count(e.k) != 0;
        if (kept && !may_live(e)) fail("EXPQ", strf("clear_expired() left key %d: %s", e.k, age(e)));
        if (!kept && !may_be_expired(e)) fail("EXPQ", strf("clear_expired() removed key %d: %s", e.k, age(e)));
        if (kept) keep.push_back(e);
      }
      if (n != before - keep.size()) fail("EXPQ", strf("clear_expired() returned %zu, %zu entries are gone", n, before - keep.size()));
      order = keep;
      quiet("clear_expired");
    } else if (what < 87) {
      begin();
      bool all = cc.all_expired();
      if (all) { for (auto& e : order) if (!may_be_expired(e)) fail("EXPQ", strf("all_expired() although key %d lives: %s", e.k, age(e))); }
      else {
        bool some = false;
        for (auto& e : order) if (may_live(e)) some = true;
        if (!some) fail("EXPQ", "all_expired() is false although all entries have expired");
      }
      quiet("all_expired");
    } else if (what < 90) {
      begin();
      int i = find(k);
      bool erased = c->erase(k);
      if (erased != (i >= 0)) fail("CONTENT", "erase() reports the wrong result");
      if (i >= 0) order.erase(order.begin() + i);
      quiet("erase");
    } else if (what < 92) {
      Slow r = slow_range();
      begin();
      switch (rng.below(4)) {
        case 0: c->insert(r.begin(), r.end()); break;
        case 1: c->insert(r); break;
        case 2: c->insert(std::move(r)); break;
        default: *c = r; order.clear(); if (r.pairs.size() > cap) cap = r.pairs.size(); break;
      }
      slow_stored(r);
      quiet("bulk insertion");
    } else if (what < 97) {
      // come close to an expiry
      if (!order.empty() && rng.chance(3, 4)) {
        Ent& e = order[static_cast<std::size_t>(rng.below(static_cast<int>(order.size())))];
        i64 target = e.hi + ttl - g_tick_ns * rng.in(0, 3) + rng.in(-1, 1);
        if (target > g_steady_ns) g_steady_ns = target;
      } else {
        g_steady_ns += rng.in(0, 1000) * 1000ll * rng.in(1, 20);
      }
      ev("time_passes");
    } else {
      static const i64 ticks[] = {0, 1, 1000, 1000000, 3000000, 20000000};
      g_tick_ns = ticks[rng.below(6)];
    }
    if (rng.chance(1, 4)) contents("the operations so far");
    if (g_sampling) sample("op%d key %d tick %lldns; ", what, k, (long long)g_tick_ns);
  }

  void run() {
    cap = static_cast<std::size_t>(rng.in(1, 5));
    universe = rng.in(2, 7);
    ttl = static_cast<i64>(rng.in(1, 60)) * 1000000;
    static const i64 ticks[] = {0, 1, 1000, 1000000, 3000000, 20000000};
    if (rng.chance(1, 2)) {
      c = std::make_unique<C>(std::chrono::nanoseconds(ttl), cap);
    } else {
      g_tick_ns = ticks[rng.below(4)];
      construct();
    }
    if (rng.chance(2, 3)) {
      stats = std::make_shared<LRU::Statistics<int>>();
      if (rng.chance(1, 2))
        for (int k = 0; k < 3; ++k) { stats->monitor(k); keyed[k]; }
      c->monitor(stats);
    }
    if (rng.chance(2, 3)) {
      has_cb = true;
      c->hit_callback([this](const int& k, const int& v) { ++n_hit; cb_key = k; cb_val = v; });
      c->miss_callback([this](const int& k) { ++n_miss; cb_key = k; });
      c->access_callback([this](const int& k, bool hit) { ++n_access; cb_key = k; cb_flag = hit; });
    }
    g_tick_ns = ticks[rng.in(1, 5)];
    int n = rng.in(20, 120);
    for (int i = 0; i < n; ++i) op();
    contents("the last operation");
  }
};

template <typename Dur>
bool tick_case(const std::set<std::string>& kinds, u64 seed) {
  g_status->seed = seed;
  try {
    TickCase<Dur> t(kinds, seed);
    t.run();
    if (g_cov) {
      ++g_cov->evaluations;
      if (t.nontrivial) g_cov->distinct.insert(t.hash);
    }
  } catch (const CaseAbort&) {
    g_tick_ns = 0;
    count("foreign_divergences");
    return false;
  } catch (const std::exception& e) {
    report_failure("EXCEPTION", std::string("an unexpected exception escaped: ") + e.what());
  }
  return true;
}
}  // namespace vp

int main(int argc, char** argv) {
  using namespace vp;
  Args a = parse_args(argc, argv);
  std::set<std::string> kinds;
  auto add = [&](const char* list) {
    std::istringstream in(list);
    std::string k;
    while (in >> k) kinds.insert(k);
  };
  if (a.profile == "C09") add("TTL CONTENT");
  else if (a.profile == "C10") add("EXPQ CONTENT");
  else if (a.profile == "C11") add("STATS");
  else if (a.profile == "C12") add("KEYSTATS");
  else if (a.profile == "C13") add("CALLBACK");
  return drive(a, [&](u64 seed) {
    g_sampling = g_cov && g_cov->samples.empty() && g_cov->evaluations > 5;
    g_sample[0] = 0;
    if (seed & 1) tick_case<std::chrono::duration<double, std::milli>>(kinds, seed);
    else tick_case<std::chrono::nanoseconds>(kinds, seed);
    if (g_sampling) g_cov->samples.push_back(strf("time passing within operations, case seed %llu: ", (unsigned long long)seed) + g_sample);
    g_sampling = false;
  });
}
