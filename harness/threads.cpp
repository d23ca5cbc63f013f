// C21: threads that share nothing, under ThreadSanitizer, every outcome also
// compared with the same work done alone.
//   -DVP_CFG=1..5  histories of the lockstep engine, and copies of one cache
//   -DVP_CFG=0     wrapped functions
#include <sched.h>
#include "drive.hpp"
#if VP_CFG
#include "world_main.hpp"
#else
#include "wrap.hpp"
#endif
using namespace vp;
#if VP_CFG
#include "cfg_type.hpp"
#endif

namespace {

struct Barrier {
  std::mutex m;
  std::condition_variable cv;
  int waiting = 0, generation = 0, n;
  explicit Barrier(int count) : n(count) {}
  void wait() {
    std::unique_lock<std::mutex> l(m);
    int g = generation;
    if (++waiting == n) { waiting = 0; ++generation; cv.notify_all(); }
    else cv.wait(l, [&] { return g != generation; });
  }
};

struct Task {
  int kind;       // 0: histories, 1: a cache out of a family of copies
  u64 seed;
  int cases;
  u64 alone = 0, together = 0;
  std::function<u64()> work;
};

#if VP_CFG
// Caches that go from one thread to another hold strings: the tracked objects
// are linked to each other.
using F = Config<std::string, std::string, T::timed, T::fn>;
using C = F::C;
using K = F::K;
using V = F::V;
const Settings* g_set = nullptr;

u64 histories(u64 seed, int cases) {
  u64 d = 0, x = 0;
  u64 keep = g_status->seed;
  for (int i = 0; i < cases; ++i) {
    run_case<T>(*g_set, seed + static_cast<u64>(i), nullptr, &x);
    d = mix(d, x);
  }
  g_status->seed = keep;
  return d;
}

// Everything a cache answers to a fixed sequence of operations.
template <typename T, typename C = typename T::C, typename K = typename T::K, typename V = typename T::V>
u64 exercise_as(C& c, u64 seed, int nops) {
  g_steady_ns = 7000000000000ll;
  Rng r(seed);
  u64 d = 0;
  const C& cc = c;
  auto key = [&] { return make_id<K>(r.below(24)); };
  for (int i = 0; i < nops; ++i) {
    if (r.chance(1, 16)) sched_yield();
    switch (r.below(14)) {
      case 0: case 1: d = mix(d, c.insert(key(), make_id<V>(r.below(1000))).was_inserted()); break;
      case 2: d = mix(d, c.emplace(key(), make_id<V>(r.below(1000))).was_inserted()); break;
      case 3: d = mix(d, cc.contains(key())); break;
      case 4: { auto it = c.find(key()); d = mix(d, it == c.end() ? 77 : static_cast<u64>(raw_id(it->second))); break; }
      case 5: { auto it = cc.find(key()); d = mix(d, it == cc.end() ? 78 : static_cast<u64>(raw_id(it->second))); break; }
      case 6: try { d = mix(d, static_cast<u64>(raw_id(c.lookup(key())))); } catch (const std::exception&) { d = mix(d, 5); } break;
      case 7: try { d = mix(d, static_cast<u64>(raw_id(cc[key()]))); } catch (const std::exception&) { d = mix(d, 6); } break;
      case 8: d = mix(d, c.erase(key())); break;
      case 9: for (auto it = cc.ordered_begin(); it != cc.ordered_end(); ++it) d = mix(d, static_cast<u64>(raw_id(it->first)) * 1000 + static_cast<u64>(raw_id(it->second))); break;
      case 10: { u64 s = 0; for (auto it = c.begin(); it != c.end(); ++it) s += mix(static_cast<u64>(raw_id(it->first)), static_cast<u64>(raw_id(it->second))); d = mix(d, s); break; }
      case 11: if (r.chance(1, 3)) c.shrink(static_cast<std::size_t>(r.in(2, 12))); d = mix(d, c.size()); break;
      case 12:
        if constexpr (T::timed) {
          g_steady_ns += static_cast<i64>(r.below(3)) * 1000000;
          if (r.chance(1, 4)) d = mix(d, c.clear_expired());
          d = mix(d, cc.has_expired(key()));
          d = mix(d, cc.all_expired());
        } else if (r.chance(1, 4)) {
          C copy(cc);
          d = mix(d, copy == cc);
          d = mix(d, copy.size());
        }
        break;
      default: if constexpr (!T::timed) if (!c.is_empty()) { d = mix(d, static_cast<u64>(raw_id(c.front())) * 64 + static_cast<u64>(raw_id(c.back()))); } break;
    }
  }
  return d;
}

u64 exercise(C& c, u64 seed, int nops) { return exercise_as<F>(c, seed, nops); }

template <typename T, typename C = typename T::C>
std::unique_ptr<C> empty_cache_as(std::size_t cap) {
  FnCfg fn;
  fn.tag = 3;
  if constexpr (T::timed) return std::make_unique<C>(std::chrono::milliseconds(9), cap, T::hash(fn), T::eq(fn));
  else return std::make_unique<C>(cap, T::hash(fn), T::eq(fn));
}

std::unique_ptr<C> empty_cache(std::size_t cap) { return empty_cache_as<F>(cap); }

// A cache and copies of it, made in different ways.
std::vector<std::unique_ptr<C>> family(u64 seed, int n) {
  g_steady_ns = 7000000000000ll;
  Rng r(seed);
  std::vector<std::unique_ptr<C>> v;
  v.push_back(empty_cache(static_cast<std::size_t>(r.in(3, 14))));
  exercise(*v[0], seed + 5, r.in(5, 60));
  int more = r.below(4);   // so that the last-used key differs
  for (int i = 0; i < more; ++i) v[0]->contains(make_id<K>(r.below(24)));
  for (int i = 1; i < n; ++i) {
    C& from = *v[static_cast<std::size_t>(r.below(i))];
    switch (r.below(5)) {
      case 0: v.push_back(std::make_unique<C>(from)); break;
      case 1: v.push_back(std::make_unique<C>(static_cast<const C&>(from))); break;
      case 2: { auto c = empty_cache(5); c->insert(make_id<K>(1), make_id<V>(1)); *c = from; v.push_back(std::move(c)); break; }
      case 3: { C c(from); v.push_back(std::make_unique<C>(std::move(c))); break; }
      default: { C c(from); auto d = empty_cache(4); d->swap(c); v.push_back(std::move(d)); break; }
    }
  }
  return v;
}
#else
u64 histories(u64 seed, int cases) {
  wrapped::Config cfg;
  cfg.many = true;
  u64 d = 0, x = 0;
  u64 keep = g_status->seed;
  for (int i = 0; i < cases; ++i) {
    wrapped::wrap_case(cfg, seed + static_cast<u64>(i), false, &x);
    d = mix(d, x);
  }
  g_status->seed = keep;
  return d;
}
#endif

void one_round(u64 seed) {
  g_status->seed = seed;
  Coverage* cov = g_cov;
  Rng r(seed);
  int n = r.in(2, 4);
  bool copies = VP_CFG != 0 && r.chance(1, 2);
  std::vector<u64> alone(static_cast<std::size_t>(n)), together(static_cast<std::size_t>(n));
  std::vector<u64> seeds;
  // half of the time all threads do the same, so that they meet everywhere
  bool same = r.chance(1, 2);
  u64 first = r.next() >> 8;
  for (int i = 0; i < n; ++i) seeds.push_back(same ? first : (r.next() >> 8));
  int len = copies ? r.in(30, 400) : r.in(1, 4);
  g_cov = nullptr;
#if VP_CFG
  u64 fseed = r.next() >> 8;
  std::vector<std::unique_ptr<C>> fam;
  if (copies) {
    auto f = family(fseed, n);
    for (int i = 0; i < n; ++i) alone[static_cast<std::size_t>(i)] = exercise(*f[static_cast<std::size_t>(i)], seeds[static_cast<std::size_t>(i)], len);
    f.clear();
    fam = family(fseed, n);
  }
#endif
  if (!copies)
    for (int i = 0; i < n; ++i) alone[static_cast<std::size_t>(i)] = histories(seeds[static_cast<std::size_t>(i)], len);
  Barrier start(n);
  std::vector<std::thread> ts;
  for (int i = 0; i < n; ++i)
    ts.emplace_back([&, i] {
      g_status->seed = seed;
      start.wait();
      std::size_t j = static_cast<std::size_t>(i);
#if VP_CFG
      if (copies) { together[j] = exercise(*fam[j], seeds[j], len); return; }
#endif
      together[j] = histories(seeds[j], len);
    });
  for (auto& t : ts) t.join();
  g_cov = cov;
  for (int i = 0; i < n; ++i)
    if (alone[static_cast<std::size_t>(i)] != together[static_cast<std::size_t>(i)])
      report_failure("THREADS", strf("%s used by one of %d threads gave other results than alone", copies ? "one of several copies of a cache" : "objects", n));
  if (g_cov) {
    ++g_cov->evaluations;
    u64 h = mix(copies, static_cast<u64>(n));
    for (u64 x : together) h = mix(h, x);
    g_cov->distinct.insert(h);
    count(copies ? "rounds_with_copies_of_one_cache" : "rounds_with_separate_objects");
    count("threads_run", static_cast<u64>(n));
    count("histories_run_in_threads", static_cast<u64>(copies ? n : n * len));
    if (copies) count("operations_on_copies_in_threads", static_cast<u64>(n * len));
    if (g_cov->samples.size() < 2)
      g_cov->samples.push_back(strf("round %llu: %d threads, %s, %d %s each, digests equal to those of the same work done alone (%llx)", (unsigned long long)seed, n,
                                    copies ? "a cache and copies of it" : "separate objects", len, copies ? "operations" : "histories", (unsigned long long)together[0]));
  }
}
}  // namespace

int main(int argc, char** argv) {
  Args a = parse_args(argc, argv);
#if VP_CFG
  Settings set;
  settings_for(a.profile, set);
  g_set = &set;
#endif
  return drive(a, one_round);
}
