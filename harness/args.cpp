// What happens to the arguments of storing operations (C24): how often keys and
// values are copied, whether lvalues keep their values, what is constructed.
#include "drive.hpp"
#include <lru/lru.hpp>

namespace vp {

// A value that records what it was constructed from.
struct Rec {
  std::string trace;
  static thread_local u64 copies;
  Rec() : trace("()") {}
  Rec(std::initializer_list<int> l) : trace(strf("{list of %zu}", l.size())) {}
  explicit Rec(int a) : trace(strf("(int %d)", a)) {}
  Rec(int a, int b) : trace(strf("(int %d,int %d)", a, b)) {}
  Rec(int a, std::string b) : trace(strf("(int %d,string ", a) + b + ")") {}
  Rec(int a, const char* b, double c) : trace(strf("(int %d,chars %s,double %g)", a, b, c)) {}
  // the category of the arguments matters
  Rec(int& a, std::unique_ptr<int> p) : trace(strf("(int& %d,unique_ptr %d)", a, p ? *p : -1)) { ++a; }
  Rec(std::string& a, const std::string& b, std::string&& c, int d)
      : trace("(string& " + a + ",const string& " + b + ",string&& ") {
    std::string taken = std::move(c);
    trace += taken + strf(",int %d)", d);
    a += "!";
  }
  Rec(const Rec& o) : trace(o.trace) { ++copies; }
  Rec(Rec&& o) noexcept = default;
  Rec& operator=(const Rec& o) { trace = o.trace; ++copies; return *this; }
  Rec& operator=(Rec&&) noexcept = default;
  bool operator==(const Rec& o) const { return trace == o.trace; }
  bool operator!=(const Rec& o) const { return trace != o.trace; }
};
thread_local u64 Rec::copies = 0;

struct Counts {
  u64 kc, kca, vc, vca;
  static Counts now() {
    return {g_tracked[0].copies, g_tracked[0].copy_assigns, g_tracked[1].copies, g_tracked[1].copy_assigns};
  }
};

template <bool Timed>
struct ArgsCase {
  using C = std::conditional_t<Timed, LRU::TimedCache<TKey, TVal>, LRU::Cache<TKey, TVal>>;
  using RC = std::conditional_t<Timed, LRU::TimedCache<TKey, Rec>, LRU::Cache<TKey, Rec>>;
  using Pairs = std::vector<std::pair<TKey, TVal>>;
  Rng rng;
  std::unique_ptr<C> c;
  std::vector<std::pair<int, int>> order;   // least recently used first
  std::size_t cap = 0;
  int next = 1, universe = 8, unused = 500;
  bool large = false;
  u64 hash = 5;
  bool nontrivial = false;
  u64 step = 0;

  explicit ArgsCase(u64 seed) : rng(seed) { g_steady_ns = 1000000000000ll; }

  [[noreturn]] void fail(const char* kind, const std::string& m) {
    g_status->op = step;
    report_failure(kind, m);
  }
  void ev(const char* name) {
    count(name);
    u64 h = 0;
    for (const char* p = name; *p; ++p) h = h * 31 + static_cast<unsigned char>(*p);
    hash = mix(hash, h);
  }
  int find(int k) {
    for (std::size_t i = 0; i < order.size(); ++i)
      if (order[i].first == k) return static_cast<int>(i);
    return -1;
  }
  void store(int k, int v) {
    if (cap == 0) return;
    int i = find(k);
    if (i >= 0) order.erase(order.begin() + i);
    else if (order.size() >= cap) order.erase(order.begin());
    order.emplace_back(k, v);
  }
  void verify(const char* what) {
    std::size_t i = 0;
    for (auto it = c->ordered_begin(); it != c->ordered_end(); ++it, ++i) {
      if (i >= order.size()) fail("STORED", strf("%s: more entries than expected", what));
      if (it->first.id() != order[i].first || it->second.id() != order[i].second)
        fail("STORED", strf("%s: entry %zu is %d=%d instead of %d=%d", what, i, it->first.id(), it->second.id(), order[i].first, order[i].second));
    }
    if (i != order.size() || c->size() != i) fail("STORED", strf("%s: %zu entries instead of %zu", what, i, order.size()));
    u64 live = g_tracked[1].live;
    if (live != order.size()) fail("LIFE", strf("%s: %llu value objects for %zu entries", what, (unsigned long long)live, order.size()));
  }
  void make(std::size_t capacity) {
    cap = capacity;
    order.clear();
    c.reset();
    if constexpr (Timed) c = std::make_unique<C>(std::chrono::hours(1), cap);
    else c = std::make_unique<C>(cap);
  }
  void no_copies(const Counts& a, bool keys, bool values, const char* what) {
    Counts b = Counts::now();
    if (keys && (b.kc != a.kc || b.kca != a.kca))
      fail("COPIES", strf("%s of a new key copied the key %llu times", what, (unsigned long long)(b.kc - a.kc + b.kca - a.kca)));
    if (values && (b.vc != a.vc || b.vca != a.vca))
      fail("COPIES", strf("%s of a new key copied the value %llu times", what, (unsigned long long)(b.vc - a.vc + b.vca - a.vca)));
    count("copy_counts_checked");
    nontrivial = true;
  }
  void kept(const TKey& k, int ki, const TVal& v, int vi, const char* what) {
    if (k.id() != ki) fail("ARGS", strf("%s changed its key argument from %d to %d", what, ki, k.id()));
    if (v.id() != vi) fail("ARGS", strf("%s changed its value argument from %d to %d", what, vi, v.id()));
    count("lvalue_arguments_checked");
  }
  void kept(const Pairs& p, const std::vector<std::pair<int, int>>& want, const char* what) {
    if (p.size() != want.size()) fail("ARGS", strf("%s changed the size of the range", what));
    for (std::size_t i = 0; i < p.size(); ++i) kept(p[i].first, want[i].first, p[i].second, want[i].second, what);
  }
  const char* situation(bool fresh) {
    return !fresh ? "of a present key" : order.size() >= cap ? "of a new key, evicting" : "of a new key";
  }

  void one(int form) {
    int k = rng.below(universe);
    if (rng.chance(1, 2) && !order.empty()) k = order[static_cast<std::size_t>(rng.below(static_cast<int>(order.size())))].first;
    int v = next++;
    bool fresh = cap > 0 && find(k) < 0;
    if (fresh) ev(order.size() >= cap ? "evicting_stores" : "new_stores");
    else ev("present_stores");
    if (g_sampling) sample("form %d key %d %s; ", form, k, situation(fresh));
    switch (form) {
      case 0: {
        TKey key(k); TVal value(v);
        c->insert(key, value);
        kept(key, k, value, v, "insert(lvalue, lvalue)");
        break;
      }
      case 1: {
        const TKey key(k); const TVal value(v);
        c->insert(key, value);
        kept(key, k, value, v, "insert(const lvalue, const lvalue)");
        break;
      }
      case 2: {
        TKey key(k); TVal value(v);
        c->emplace(key, value);
        kept(key, k, value, v, "emplace(lvalue, lvalue)");
        break;
      }
      case 3: {
        const TKey key(k); const TVal value(v);
        c->emplace(key, value);
        kept(key, k, value, v, "emplace(const lvalue, const lvalue)");
        break;
      }
      case 4: {
        Counts a = Counts::now();
        c->emplace(TKey(k), TVal(v));
        if (fresh) no_copies(a, true, true, "emplace(rvalue, rvalue)");
        break;
      }
      case 5: {
        TKey key(k); TVal value(v);
        Counts a = Counts::now();
        c->emplace(std::move(key), std::move(value));
        if (fresh) no_copies(a, true, true, "emplace(std::move(key), std::move(value))");
        break;
      }
      case 6: {
        TKey key(k);
        Counts a = Counts::now();
        c->emplace(key, TVal(v));
        if (fresh) no_copies(a, false, true, "emplace(lvalue, rvalue)");
        if (key.id() != k) fail("ARGS", "emplace(lvalue, rvalue) changed the key");
        break;
      }
      case 7: {
        TVal value(v);
        Counts a = Counts::now();
        c->emplace(TKey(k), value);
        if (fresh) no_copies(a, true, false, "emplace(rvalue, lvalue)");
        if (value.id() != v) fail("ARGS", "emplace(rvalue, lvalue) changed the value");
        break;
      }
      case 8: {
        Counts a = Counts::now();
        c->emplace(k, v);   // constructible from the arguments
        if (fresh) no_copies(a, true, true, "emplace(int, int)");
        break;
      }
      case 9: {
        Counts a = Counts::now();
        c->emplace(std::piecewise_construct, std::forward_as_tuple(0, k), std::forward_as_tuple(v / 1000, v % 1000));
        if (fresh) no_copies(a, true, true, "piecewise emplace");
        break;
      }
      case 10: {
        TKey key(k); TVal value(v);
        Counts a = Counts::now();
        c->emplace(std::piecewise_construct, std::forward_as_tuple(std::move(key)), std::forward_as_tuple(std::move(value)));
        if (fresh) no_copies(a, true, true, "piecewise emplace from rvalues");
        break;
      }
      case 11: {
        TKey key(k); TVal value(v);
        c->emplace(std::piecewise_construct, std::forward_as_tuple(key), std::forward_as_tuple(value));
        kept(key, k, value, v, "piecewise emplace from lvalues");
        break;
      }
      default: {
        int kk = k, vv = v;
        auto kt = std::forward_as_tuple(kk);
        auto vt = std::forward_as_tuple(vv);
        c->emplace(std::piecewise_construct, kt, vt);
        if (kk != k || vv != v) fail("ARGS", "piecewise emplace changed its arguments");
        break;
      }
    }
    store(k, v);
    verify("storing");
  }

  std::vector<std::pair<int, int>> draw(bool all_new, int n) {
    std::vector<std::pair<int, int>> ids;
    for (int i = 0; i < n; ++i) {
      int k = all_new ? unused++ : rng.below(universe);
      ids.emplace_back(k, next++);
    }
    return ids;
  }
  template <typename... As>
  std::unique_ptr<C> build(As&&... as) {
    if constexpr (Timed) return std::make_unique<C>(std::chrono::hours(1), std::forward<As>(as)...);
    else return std::make_unique<C>(std::forward<As>(as)...);
  }
  void bulk(int form) {
    bool all_new = rng.chance(1, 2);
    auto ids = draw(all_new, large && rng.chance(1, 3) ? rng.in(0, 50) : rng.in(0, 6));
    Pairs p;
    for (auto& x : ids) p.emplace_back(TKey(x.first), TVal(x.second));
    const Pairs& cp = p;
    Counts a = Counts::now();
    if (g_sampling) sample("bulk form %d of %zu pairs; ", form, ids.size());
    bool rebuilt = false;
    std::size_t before = cap;
    const char* what = "";
    switch (form) {
      case 0: c->insert(p); kept(p, ids, what = "insert(range)"); break;
      case 1: c->insert(cp); kept(p, ids, what = "insert(const range)"); break;
      case 2: c->insert(p.begin(), p.end()); kept(p, ids, what = "insert(begin, end)"); break;
      case 3:
        what = "insert(rvalue range)";
        if (rng.chance(1, 3)) {
          what = "insert(rvalue list)";
          std::list<std::pair<TKey, TVal>> l(p.begin(), p.end());
          a = Counts::now();
          c->insert(std::move(l));
        } else {
          c->insert(std::move(p));
        }
        if (all_new && cap > 0 && !ids.empty()) no_copies(a, true, true, what);
        break;
      case 4: rebuilt = true; *c = p; kept(p, ids, what = "assigning a range"); break;
      case 5: rebuilt = true; *c = cp; kept(p, ids, what = "assigning a const range"); break;
      case 6:
        rebuilt = true;
        what = "assigning an rvalue range";
        if (rng.chance(1, 3)) {
          what = "assigning an rvalue list";
          std::list<std::pair<TKey, TVal>> l(p.begin(), p.end());
          a = Counts::now();
          *c = std::move(l);
        } else {
          *c = std::move(p);
        }
        if (cap > 0 && distinct(ids) && !ids.empty()) no_copies(a, true, true, what);
        break;
      case 7:
        rebuilt = true;
        cap = static_cast<std::size_t>(rng.in(1, large ? 60 : 7));
        switch (rng.below(4)) {
          case 0: c = build(p); break;
          case 1: c = build(cp); break;
          case 2: c = build(cap, cp); break;
          default: c = build(cap, p); break;
        }
        kept(p, ids, what = "constructing from a range");
        break;
      case 8:
        rebuilt = true;
        cap = static_cast<std::size_t>(rng.in(1, large ? 60 : 7));
        what = "constructing from an rvalue range";
        if (rng.chance(1, 3)) {
          what = "constructing from an rvalue list";
          std::list<std::pair<TKey, TVal>> l(p.begin(), p.end());
          a = Counts::now();
          c = rng.chance(1, 2) ? build(std::move(l)) : build(cap, std::move(l));
        } else {
          a = Counts::now();
          if (rng.chance(1, 2)) { what = "constructing from an rvalue range alone"; c = build(std::move(p)); }
          else c = build(cap, std::move(p));
        }
        if (distinct(ids) && !ids.empty()) no_copies(a, true, true, what);
        break;
      case 9:
        rebuilt = true;
        cap = static_cast<std::size_t>(rng.in(1, large ? 60 : 7));
        switch (rng.below(4)) {
          case 0: c = build(p.begin(), p.end()); break;
          case 1: c = build(cp.begin(), cp.end()); break;
          case 2: c = build(cap, cp.begin(), cp.end()); break;
          default: c = build(cap, p.begin(), p.end()); break;
        }
        kept(p, ids, what = "constructing from iterators");
        break;
      case 10: {
        what = "insert(lvalue list)";
        std::list<std::pair<TKey, TVal>> l(p.begin(), p.end());
        c->insert(l);
        std::size_t i = 0;
        for (auto& e : l) { kept(e.first, ids[i].first, e.second, ids[i].second, what); ++i; }
        break;
      }
      default: {
        what = "insert(unordered_map)";
        std::unordered_map<TKey, TVal> m(p.begin(), p.end());
        std::vector<std::pair<int, int>> want;
        for (auto& e : m) want.emplace_back(e.first.id(), e.second.id());
        c->insert(m);
        std::size_t i = 0;
        for (auto& e : m) { kept(e.first, want[i].first, e.second, want[i].second, what); ++i; }
        ids = want;
        break;
      }
    }
    ev("bulk_stores");
    p.clear();
    if (rebuilt) {
      order.clear();
      if (form < 7) cap = before;
      // assigning a range keeps the capacity as it is, or adapts it; what counts here is what was stored
      cap = c->capacity();
    }
    for (auto& x : ids) store(x.first, x.second);
    verify(what);
  }
  static bool distinct(const std::vector<std::pair<int, int>>& ids) {
    std::set<int> s;
    for (auto& x : ids) s.insert(x.first);
    return s.size() == ids.size();
  }

  // Values that record their construction.
  void recorded() {
    std::size_t rcap = static_cast<std::size_t>(rng.in(1, 4));
    std::unique_ptr<RC> rc;
    if constexpr (Timed) rc = std::make_unique<RC>(std::chrono::hours(1), rcap);
    else rc = std::make_unique<RC>(rcap);
    std::vector<std::pair<int, std::string>> want;
    int n = rng.in(3, 14);
    for (int i = 0; i < n; ++i) {
      int hi = rng.below(2), lo = rng.below(4), k = hi * 1000 + lo;
      auto present = std::find_if(want.begin(), want.end(), [&](auto& x) { return x.first == k; });
      bool fresh = present == want.end();
      u64 copies = Rec::copies;
      std::string expect;
      int form = rng.below(7);
      int x = rng.below(1000);
      switch (form) {
        case 0:
          expect = "()";
          rc->emplace(std::piecewise_construct, std::forward_as_tuple(hi, lo), std::forward_as_tuple());
          break;
        case 1:
          expect = strf("(int %d)", x);
          rc->emplace(std::piecewise_construct, std::forward_as_tuple(hi, lo), std::forward_as_tuple(x));
          break;
        case 2: {
          std::string s = "a string that is long enough for the heap";
          expect = strf("(int %d,string ", x) + s + ")";
          if (rng.chance(1, 2)) {
            rc->emplace(std::piecewise_construct, std::forward_as_tuple(hi, lo), std::forward_as_tuple(x, s));
            if (s != "a string that is long enough for the heap") fail("ARGS", "piecewise emplace changed an lvalue string");
          } else {
            rc->emplace(std::piecewise_construct, std::forward_as_tuple(hi, lo), std::forward_as_tuple(x, std::move(s)));
          }
          break;
        }
        case 6:
          expect = strf("(int %d,int %d)", x, lo);
          rc->emplace(std::piecewise_construct, std::forward_as_tuple(hi, lo), std::forward_as_tuple(x, lo));
          break;
        case 3:
          expect = strf("(int %d,chars word,double 2.5)", x);
          rc->emplace(std::piecewise_construct, std::forward_as_tuple(hi, lo), std::forward_as_tuple(x, "word", 2.5));
          break;
        case 4: {
          int y = x;
          auto p = std::make_unique<int>(x + 1);
          expect = strf("(int& %d,unique_ptr %d)", x, x + 1);
          rc->emplace(std::piecewise_construct, std::forward_as_tuple(hi, lo), std::forward_as_tuple(y, std::move(p)));
          if (y != x + 1 || p) fail("ARGS", "piecewise emplace did not pass on its arguments as they were given");
          break;
        }
        default: {
          std::string s1 = "one", s2 = "two", s3 = "a third string that is long enough for the heap";
          expect = "(string& one,const string& two,string&& a third string that is long enough for the heap,int " + std::to_string(x) + ")";
          rc->emplace(std::piecewise_construct, std::forward_as_tuple(k), std::forward_as_tuple(s1, s2, std::move(s3), x));
          if (s1 != "one!" || s2 != "two") fail("ARGS", "piecewise emplace did not pass on its arguments as they were given");
          break;
        }
      }
      ev(fresh ? "piecewise_new" : "piecewise_present");
      if (fresh && Rec::copies != copies) fail("COPIES", "piecewise emplacement of a new key copied the value");
      if (!fresh) want.erase(present);
      else if (want.size() >= rcap) want.erase(want.begin());
      want.emplace_back(k, expect);
      std::size_t j = 0;
      for (auto it = rc->ordered_begin(); it != rc->ordered_end(); ++it, ++j) {
        if (j >= want.size() || it->first.id() != want[j].first || it->second.trace != want[j].second)
          fail("STORED", "piecewise emplacement stored " + it->second.trace + " for key " + std::to_string(it->first.id()) +
               " where " + (j < want.size() ? want[j].second + " for key " + std::to_string(want[j].first) : "nothing") + " is expected");
      }
      if (j != want.size()) fail("STORED", "piecewise emplacement lost an entry");
    }
  }

  void run() {
    large = rng.chance(1, 5);
    universe = large ? rng.in(12, 120) : rng.in(3, 12);
    make(static_cast<std::size_t>(rng.chance(1, 12) ? 0 : rng.in(1, large ? 60 : 6)));
    int n = large ? rng.in(20, 120) : rng.in(8, 50);
    for (int i = 0; i < n; ++i) {
      ++step;
      int what = rng.below(20);
      if (what < 13) one(rng.below(13));
      else if (what < 18) bulk(rng.below(12));
      else if (what == 18) make(static_cast<std::size_t>(rng.chance(1, 12) ? 0 : rng.in(1, large ? 60 : 6)));
      else if (!order.empty()) {
        int k = order[static_cast<std::size_t>(rng.below(static_cast<int>(order.size())))].first;
        TVal& r = c->lookup(TKey(k));
        int i2 = find(k), v = order[static_cast<std::size_t>(i2)].second;
        if (r.id() != v) fail("STORED", "lookup returned another value");
        store(k, v);
      }
    }
    c.reset();
    recorded();
  }
};

template <bool Timed>
void args_case(u64 seed) {
  g_status->seed = seed;
  for (int attempt = 0;; ++attempt) {
    i64 blocks = g_live_blocks;
    u64 hash;
    bool nontrivial;
    try {
      ArgsCase<Timed> c(seed);
      c.run();
      hash = c.hash;
      nontrivial = c.nontrivial;
    } catch (const std::exception& e) {
      report_failure("EXCEPTION", std::string("an unexpected exception escaped: ") + e.what());
    }
    if (g_live_blocks != blocks) {
      if (attempt == 0) continue;
      report_failure("LEAK", strf("%lld blocks allocated by the case were never freed", (long long)(g_live_blocks - blocks)));
    }
    if (g_cov) {
      ++g_cov->evaluations;
      if (nontrivial) g_cov->distinct.insert(hash);
    }
    return;
  }
}
}  // namespace vp

int main(int argc, char** argv) {
  using namespace vp;
  Args a = parse_args(argc, argv);
  return drive(a, [&](u64 seed) {
    g_sampling = g_cov && g_cov->samples.empty() && g_cov->evaluations > 5;
    g_sample[0] = 0;
    if (seed & 1) args_case<true>(seed);
    else args_case<false>(seed);
    if (g_sampling) g_cov->samples.push_back(strf("arguments, case seed %llu: ", (unsigned long long)seed) + g_sample);
    g_sampling = false;
  });
}
