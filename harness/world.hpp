// The lockstep engine: random histories of operations on several caches at
// once, every observable outcome compared with a reference model.
#ifndef VP_WORLD_HPP
#define VP_WORLD_HPP
#include "rt.hpp"
#include <deque>
#include <forward_list>
#include <unordered_map>
#include <lru/lru.hpp>

namespace vp {

// ---------------------------------------------------------------- user functions
// Identity, tag and hash quality of the user-supplied function objects. With
// n != 0 keys are equal when they are congruent modulo n.
struct FnCfg {
  int n = 0;
  int tag = 0;
  int mode = 0;   // 0: spread, 1: three buckets' worth of hashes, 2: constant
  int cls(int raw) const { return n ? raw % n : raw; }
};
// The identity of default-constructed function objects, coarser than most:
// a default-constructed object in place of the supplied one shows.
inline FnCfg default_fn() { FnCfg f; f.n = 5; return f; }
extern thread_local u64 g_hash_calls;
extern thread_local u64 g_eq_calls;

template <typename K> int raw_id(const K& k);
template <> inline int raw_id<int>(const int& k) { return k; }
template <> inline int raw_id<TKey>(const TKey& k) { return k.id(); }
template <> inline int raw_id<TVal>(const TVal& k) { return k.id(); }
template <> inline int raw_id<std::string>(const std::string& s) {
  // "k<id>" padded to different lengths, inline or on the heap
  if (s.size() < 2 || (s[0] != 'k' && s[0] != 'v')) return -2;
  int id = 0;
  std::size_t i = 1;
  for (; i < s.size() && s[i] >= '0' && s[i] <= '9'; ++i) id = id * 10 + (s[i] - '0');
  if (i == 1) return -2;
  for (; i < s.size(); ++i)
    if (s[i] != '.') return -2;
  return id;
}
template <typename K> K make_id(int id);
template <> inline int make_id<int>(int id) { return id; }
template <> inline TKey make_id<TKey>(int id) { return TKey(id); }
template <> inline TVal make_id<TVal>(int id) { return TVal(id); }
template <> inline std::string make_id<std::string>(int id) {
  std::string s = "k" + std::to_string(id);
  if (id % 3 == 0) s += std::string(static_cast<std::size_t>(24 + id % 7), '.');
  return s;
}

// whether operator== says that two values are equal
template <typename V> bool same_val(int a, int b) { return a == b; }

template <typename K>
struct FnHash {
  FnCfg c;
  FnHash() : c(default_fn()) {}
  explicit FnHash(const FnCfg& cfg) : c(cfg) {}
  std::size_t operator()(const K& k) const {
    ++g_hash_calls;
    int id = c.cls(raw_id(k));
    if (c.mode == 2) return 7;
    if (c.mode == 1) return static_cast<std::size_t>(id % 3);
    return static_cast<std::size_t>(id) * 2654435761u;
  }
};
template <typename K>
struct FnEq {
  FnCfg c;
  FnEq() : c(default_fn()) {}
  explicit FnEq(const FnCfg& cfg) : c(cfg) {}
  bool operator()(const K& a, const K& b) const {
    ++g_eq_calls;
    return c.cls(raw_id(a)) == c.cls(raw_id(b));
  }
};

// ---------------------------------------------------------------- configurations
template <typename K_, typename V_, bool Timed, bool Fn, typename Dur = std::chrono::duration<double, std::milli>>
struct Config {
  using K = K_;
  using V = V_;
  static constexpr bool timed = Timed;
  static constexpr bool fn = Fn;        // user-supplied function objects
  static constexpr bool tkey = std::is_same<K, TKey>::value;
  static constexpr bool tval = std::is_same<V, TVal>::value;
  using H = std::conditional_t<Fn, FnHash<K>, std::hash<K>>;
  using E = std::conditional_t<Fn, FnEq<K>, std::equal_to<K>>;
  using Duration = Dur;
  using C = std::conditional_t<Timed, LRU::TimedCache<K, V, Dur, H, E>, LRU::Cache<K, V, H, E>>;
  // resolution of the duration type in ns
  static constexpr i64 tick = std::is_floating_point<typename Dur::rep>::value ? 1
      : static_cast<i64>(1000000000.0 * Dur::period::num / Dur::period::den);
  static H hash(const FnCfg& c) { if constexpr (Fn) return H(c); else return H(); }
  static E eq(const FnCfg& c) { if constexpr (Fn) return E(c); else return E(); }
};

// ---------------------------------------------------------------- operations
enum OpCode {
  O_INSERT, O_LOOKUP, O_ERASE_KEY, O_ERASE_UIT, O_ERASE_OIT, O_CLEAR, O_SHRINK, O_CAPACITY,
  O_BULK_INSERT, O_BULK_ASSIGN, O_BULK_CONSTRUCT, O_COPY_CTOR, O_COPY_ASSIGN, O_MOVE_CTOR,
  O_MOVE_ASSIGN, O_SWAP, O_ITERATE, O_ITER_WRITE, O_FRONTBACK, O_MONITOR, O_STOP, O_STATS,
  O_KEYSTAT, O_CB_ADD, O_CB_CLEAR, O_ADVANCE, O_WALL, O_EXPQ, O_CLEAR_EXPIRED, O_ALL_EXPIRED,
  O_HOLD, O_HUSE, O_HDROP, O_EQUAL, O_EQ_REBUILD, O_ALIAS, O_MISUSE, O_RECREATE, O_DRAIN,
  O_BURST, O_RESET, O_ENTRY, O_COUNT
};
extern const char* const op_names[O_COUNT];
struct Op {
  int code, s, s2, k, v, a, b, c;
};

// ---------------------------------------------------------------- settings
struct Settings {
  std::string profile = "C02";
  int weights[O_COUNT];
  std::set<std::string> kinds;     // kinds of divergence that violate the property
  int audit_mode = -1;             // -1: varies; 0: every operation; 1: some; 2: only at the end
  int nslots = 0;                  // 0: varies
  int ops_lo = 10, ops_hi = 90;
  bool big = false;                // allow large caches
  bool trace = false;
  bool shared_stats = true;
  bool callbacks = true;
  bool similar_values = true;      // values may be stored again
  const char* nontrivial = "";     // counters of which one must have moved
};
void settings_for(const std::string& profile, Settings& s);

struct LogRec {
  int cb, kind, key, value;   // kind 0 hit, 1 miss, 2 access
  int own;                    // how often this callback object counted itself as called, 0 if it does not count
};
extern thread_local std::vector<LogRec>* g_log;

// ---------------------------------------------------------------- the world
template <typename T>
class World {
 public:
  using K = typename T::K;
  using V = typename T::V;
  using C = typename T::C;
  using UI = typename C::UnorderedIterator;
  using UCI = typename C::UnorderedConstIterator;
  using OI = typename C::OrderedIterator;
  using OCI = typename C::OrderedConstIterator;
  using Stats = LRU::Statistics<K>;
  using Pairs = std::vector<std::pair<K, V>>;

  struct Ent {
    int cls, val;
    i64 stamp;
    u64 eid;
    const void* kaddr;
    const void* vaddr;
  };
  struct MStats {
    u64 accesses = 0, hits = 0;
    std::map<int, std::pair<u64, u64>> keys;
    // held by the driver as well, or by the caches alone
    std::shared_ptr<Stats> strong;
    std::weak_ptr<Stats> weak;
    std::shared_ptr<Stats> obj() const { return strong ? strong : weak.lock(); }
  };
  struct Slot {
    std::unique_ptr<C> c;
    std::vector<Ent> order;     // least recently used first
    std::size_t cap = 0;
    i64 ttl = 0;                // ns
    FnCfg fn;
    std::shared_ptr<MStats> st;
    std::vector<int> cbs[3];
    std::map<int, int> cb_calls;// calls the callback objects last counted
    bool limbo = false;         // moved from and not yet usable again
    int last_cls = -1;          // class of the key last stored or found
    u64 last_seq = 0;           // when that was
  };
  struct Handle {
    u64 eid;
    int slot;
    bool iters;                 // iterators are still bound to the slot
    V* ref;
    const V* cref;
    UI ui;
    UCI uci;
    OI oi;
    OCI oci;
  };

  const Settings& set;
  Rng rng;
  std::vector<Slot> slots;
  std::vector<Handle> handles;
  std::vector<std::shared_ptr<MStats>> all_stats;
  std::vector<LogRec> log;
  int universe = 10, cap_lo = 1, cap_hi = 6;
  int next_val = 1;
  u64 next_eid = 1;
  int next_cb = 1;
  int audit_mode = 0;
  i64 t0;
  u64 outcome_hash = 1;
  bool nontrivial = false;
  u64 touched = 0;              // slots named by the current operation
  std::string trace_text;
  u64 opno = 0;
  u64 seq = 10;

  World(const Settings& s, u64 seed) : set(s), rng(seed) {
    t0 = 1000000000000ll + static_cast<i64>(seed % 977) * 1000000000ll;
    g_steady_ns = t0;
    g_system_ns = 1600000000000000000ll;
    g_log = &log;
  }
  ~World() {
    g_log = nullptr;
    handles.clear();
    slots.clear();
  }

  i64 now() const { return g_steady_ns; }

  // -------------------------------------------------------------- failures
  [[noreturn]] void fail(const char* kind, const std::string& message) {
    if (set.kinds.count(kind) || set.kinds.count("*")) {
      g_status->op = opno;
      report_failure(kind, message);
    }
    count("foreign_divergences");
    throw CaseAbort{};
  }
  void chk(bool ok, const char* kind, const char* message) {
    if (__builtin_expect(!ok, 0)) fail(kind, message);
  }
#define VP_CHK(cond, kind, ...) \
  do { if (__builtin_expect(!(cond), 0)) fail(kind, strf(__VA_ARGS__)); } while (0)

  void ev(const char* name) {
    count(name);
    if (!nontrivial && std::strstr(set.nontrivial, name)) nontrivial = true;
    u64 h = 0;
    for (const char* p = name; *p; ++p) h = h * 31 + static_cast<unsigned char>(*p);
    outcome_hash = mix(outcome_hash, h);
  }
  void out(u64 v) { outcome_hash = mix(outcome_hash, v); }

  // -------------------------------------------------------------- model
  int find_ent(const Slot& s, int cls) const {
    for (std::size_t i = 0; i < s.order.size(); ++i)
      if (s.order[i].cls == cls) return static_cast<int>(i);
    return -1;
  }
  bool expired(const Slot& s, const Ent& e) const {
    // ages are counted in whole units of an integral duration type
    return T::timed && (now() - e.stamp) / T::tick * T::tick > s.ttl;
  }
  int cls(const Slot& s, int raw) const { return s.fn.cls(raw); }
  void to_front(Slot& s, int i) {
    Ent e = s.order[static_cast<std::size_t>(i)];
    s.order.erase(s.order.begin() + i);
    s.order.push_back(e);
  }
  void m_remove(Slot& s, int i) {
    if (s.order[static_cast<std::size_t>(i)].cls == s.last_cls) s.last_cls = -1;
    s.order.erase(s.order.begin() + i);
  }
  // 1: new, 0: updated, -1: updated an expired entry (was_inserted unspecified), -2: capacity zero
  int m_store(Slot& s, int raw, int val) {
    if (s.cap == 0) return -2;
    int c = cls(s, raw);
    int i = find_ent(s, c);
    s.last_cls = c;
    if (i >= 0) {
      bool was_expired = expired(s, s.order[static_cast<std::size_t>(i)]);
      to_front(s, i);
      s.order.back().val = val;
      s.order.back().stamp = now();
      if (was_expired) ev("stored_expired_again");
      else ev("updates");
      return was_expired ? -1 : 0;
    }
    if (s.order.size() >= s.cap) {
      if (s.order.front().cls == s.last_cls) s.last_cls = c;
      s.order.erase(s.order.begin());
      ev("evictions");
    } else {
      ev("fresh_insertions");
    }
    s.order.push_back(Ent{c, val, now(), next_eid++, nullptr, nullptr});
    return 1;
  }
  Slot& slot(int i) {
    std::size_t j = static_cast<std::size_t>(i) % slots.size();
    touched |= 1ull << j;
    return slots[j];
  }
  int slot_index(const Slot& s) const { return static_cast<int>(&s - slots.data()); }
  void drop_handles(int slot_i, bool iters_only) {
    for (auto& h : handles)
      if (h.slot == slot_i) {
        h.iters = false;
        if (!iters_only) h.eid = 0;
      }
  }
  void remap_handles_after_swap(int i, int j) {
    // references survive (looked up by entry), iterators are not used any more
    drop_handles(i, true);
    drop_handles(j, true);
    for (auto& h : handles) {
      if (h.slot == i) h.slot = j;
      else if (h.slot == j) h.slot = i;
    }
  }
  int handle_ent(const Handle& h) const {
    if (!h.eid) return -1;
    const Slot& s = slots[static_cast<std::size_t>(h.slot)];
    if (s.limbo) return -1;
    for (std::size_t i = 0; i < s.order.size(); ++i)
      if (s.order[i].eid == h.eid) return static_cast<int>(i);
    return -1;
  }
  static int vid(const V& v) { return raw_id(v); }
  static int kid(const K& k) { return raw_id(k); }
  K mk(int raw) { return make_id<K>(raw); }
  V mv(int id) { return make_id<V>(id); }
  int fresh_val() { return next_val++; }

  // -------------------------------------------------------------- statistics and callbacks
  void expect_access(Slot& s, int raw, bool hit, int val) {
    // the log of callbacks since begin_access() must be exactly this
    if (s.st) {
      s.st->accesses++;
      if (hit) s.st->hits++;
      auto it = s.st->keys.find(raw);
      if (it != s.st->keys.end()) (hit ? it->second.first : it->second.second)++;
    }
    // when the statistics are what is judged, a callback that went astray must
    // not end the case before they were looked at
    if (s.st && !set.kinds.count("CALLBACK") && (set.kinds.count("STATS") || set.kinds.count("KEYSTATS")) &&
        log.size() != s.cbs[hit ? 0 : 1].size() + s.cbs[2].size())
      check_stats(*s.st);
    std::size_t n[3] = {0, 0, 0};
    for (auto& r : log) {
      auto& ids = s.cbs[r.kind];
      std::size_t& p = n[r.kind];
      VP_CHK(r.kind == 2 || (r.kind == 0) == hit, "CALLBACK", "a %s callback ran for a %s",
             r.kind == 0 ? "hit" : "miss", hit ? "hit" : "miss");
      VP_CHK(p < ids.size(), "CALLBACK", "too many callbacks of kind %d ran (callback %d)", r.kind, r.cb);
      VP_CHK(ids[p] == r.cb, "CALLBACK", "callback %d of kind %d ran where %d is due (registration order)",
             r.cb, r.kind, ids[p]);
      if (r.own) {
        int& last = s.cb_calls[r.cb];
        VP_CHK(r.own > last, "CALLBACK", "callback %d lost its own state: it counts call %d after call %d", r.cb, r.own, last);
        last = r.own;
      }
      VP_CHK(cls(s, r.key) == cls(s, raw), "CALLBACK", "callback got key %d instead of %d", r.key, raw);
      if (r.kind == 0 && val >= 0)
        VP_CHK(r.value == val, "CALLBACK", "hit callback got value %d instead of %d", r.value, val);
      if (r.kind == 2)
        VP_CHK((r.value != 0) == hit, "CALLBACK", "access callback was told %s for a %s",
               r.value ? "hit" : "miss", hit ? "hit" : "miss");
      ++p;
      count("callbacks_observed");
    }
    for (int kind = 0; kind < 3; ++kind) {
      bool due = kind == 2 || (kind == 0) == hit;
      VP_CHK(n[kind] == (due ? s.cbs[kind].size() : 0), "CALLBACK",
             "%zu callbacks of kind %d ran for a %s, %zu are registered", n[kind], kind,
             hit ? "hit" : "miss", s.cbs[kind].size());
    }
    log.clear();
    if (!s.cbs[0].empty() || !s.cbs[1].empty() || !s.cbs[2].empty()) ev("lookups_with_callbacks");
    if (s.st) ev("lookups_counted");
  }
  void expect_no_callbacks() {
    if (!log.empty())
      VP_CHK(false, "CALLBACK", "callback %d of kind %d ran in an operation that is no lookup", log[0].cb,
             log[0].kind);
  }
  void check_stats(const MStats& m) {
    const std::shared_ptr<Stats> held = m.obj();
    if (!held) return;
    const Stats& st = *held;
    VP_CHK(st.total_accesses() == m.accesses, "STATS", "total_accesses() is %zu, %llu lookups were made",
           st.total_accesses(), (unsigned long long)m.accesses);
    VP_CHK(st.total_hits() == m.hits, "STATS", "total_hits() is %zu, %llu lookups hit", st.total_hits(),
           (unsigned long long)m.hits);
    VP_CHK(st.total_misses() == m.accesses - m.hits, "STATS", "total_misses() is %zu, %llu lookups missed",
           st.total_misses(), (unsigned long long)(m.accesses - m.hits));
    if (m.accesses) {
      double rate = static_cast<double>(m.hits) / static_cast<double>(m.accesses);
      VP_CHK(std::fabs(st.hit_rate() - rate) < 1e-12, "STATS", "hit_rate() is %g instead of %g", st.hit_rate(), rate);
      VP_CHK(std::fabs(st.miss_rate() - (1 - rate)) < 1e-12, "STATS", "miss_rate() is %g instead of %g",
             st.miss_rate(), 1 - rate);
    }
    if (T::fn && mod_used) return;   // what "the same key" is differs there
    VP_CHK(st.number_of_monitored_keys() == m.keys.size(), "KEYSTATS", "%zu keys are monitored instead of %zu",
           st.number_of_monitored_keys(), m.keys.size());
    VP_CHK(st.is_monitoring_keys() == !m.keys.empty(), "KEYSTATS", "is_monitoring_keys() is wrong");
    for (auto& p : m.keys) {
      K key = mk(p.first);
      VP_CHK(st.is_monitoring(key), "KEYSTATS", "key %d is not monitored any more", p.first);
      VP_CHK(st.hits_for(key) == p.second.first, "KEYSTATS", "hits_for(%d) is %zu instead of %llu", p.first,
             st.hits_for(key), (unsigned long long)p.second.first);
      VP_CHK(st.misses_for(key) == p.second.second, "KEYSTATS", "misses_for(%d) is %zu instead of %llu", p.first,
             st.misses_for(key), (unsigned long long)p.second.second);
      VP_CHK(st.accesses_for(key) == p.second.first + p.second.second, "KEYSTATS", "accesses_for(%d) is %zu",
             p.first, st.accesses_for(key));
      const auto& ks = st.stats_for(key);
      VP_CHK(ks.hits == p.second.first && ks.misses == p.second.second &&
                 ks.accesses() == p.second.first + p.second.second,
             "KEYSTATS", "stats_for(%d) is wrong", p.first);
      const auto& kb = st[key];
      VP_CHK(kb.hits == ks.hits && kb.misses == ks.misses, "KEYSTATS", "operator[](%d) is wrong", p.first);
      if (p.second.first + p.second.second) ev("monitored_keys_with_counts");
    }
  }
  bool mod_used = false;

#include "world_audit.inc"
#include "world_ops.inc"
#include "world_run.inc"
#ifdef VP_FAULT
#include "world_fault.inc"
#endif
};

}  // namespace vp
#endif
