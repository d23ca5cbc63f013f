#include "wrap.hpp"

namespace vp {
namespace wrapped {
thread_local Driver* g_driver = nullptr;
thread_local bool g_unusual = false;
static const char g_many[65536] = {};
const char* const many_results[128] = {g_many};
int original_called(int fid, int a, int b) { return g_driver->original(fid, a, b); }

std::unique_ptr<Base> create_part1(int kind, int n, int fid, Rng& rng);
std::unique_ptr<Base> create_part2(int kind, int n, int fid, Rng& rng);
std::unique_ptr<Base> create_part3(int kind, int n, int fid, Rng& rng);
std::unique_ptr<Base> create_part4(int kind, int n, int fid, Rng& rng);

void Driver::create(int kind) {
  int fid = next_fid++;
  int n = rng.below(3);
  std::unique_ptr<Base> w = create_part1(kind, n, fid, rng);
  if (!w) w = create_part2(kind, n, fid, rng);
  if (!w) w = create_part3(kind, n, fid, rng);
  if (!w) w = create_part4(kind, n, fid, rng);
  ev("wrappers_created");
  ws.push_back(std::move(w));
}

void Driver::run() {
  std::vector<std::unique_ptr<Base>> idle;   // copies of wrapped functions that are not called any more
  int kinds = 16;
  int n = cfg.many ? rng.in(2, 6) : 1;
  int favourite = rng.below(kinds);
  for (int i = 0; i < n; ++i) create(rng.chance(2, 3) ? favourite : rng.below(kinds));
  bool large = rng.chance(1, 15);
  int universe = large ? rng.in(30, 160) : rng.in(2, 8);
  static const i64 ticks[] = {1, 1000, 1000000, 3000000, 20000000};
  if (rng.chance(1, 3)) tick = ticks[rng.below(5)];
  int nops = large ? rng.in(200, 700) : rng.in(10, 90);
  for (int i = 0; i < nops; ++i) {
    int what = rng.below(100);
    if (ws.empty()) create(rng.below(kinds));
    if (what < 86) {
      int wi = rng.below(static_cast<int>(ws.size()));
      Script s;
      s.throws = rng.chance(1, 12);
      if (rng.chance(1, 10)) s.takes = static_cast<i64>(rng.in(1, 40)) * 1000000;
      if (cfg.recursion && rng.chance(1, 6)) {
        int m = rng.in(1, 3);
        for (int j = 0; j < m; ++j)
          s.inner.push_back(Inner{rng.chance(2, 3) ? wi : rng.below(static_cast<int>(ws.size())), rng.below(universe), rng.below(2), rng.below(4)});
      }
      int a = rng.below(universe), b = rng.below(2);
      if (g_sampling) sample("%s(%d,%d)[cap %zu%s]%s; ", ws[static_cast<std::size_t>(wi)]->what, a, b, ws[static_cast<std::size_t>(wi)]->cap, ws[static_cast<std::size_t>(wi)]->timed ? " timed" : "", s.throws ? " throws" : "");
      checked_call(wi, a, b, rng.below(4), s);
    } else if (what < 94) {
      static const i64 unit = 1000000;
      i64 d = static_cast<i64>(rng.in(0, 30)) * unit;
      if (rng.chance(1, 3)) d = static_cast<i64>(rng.in(1, 6)) * 10 * unit + rng.in(-1, 1);
      if (rng.chance(1, 10)) d = 1500 * unit;
      Base& w = *ws[static_cast<std::size_t>(rng.below(static_cast<int>(ws.size())))];
      if (w.timed && !w.order.empty() && rng.chance(1, 2)) {     // to the edge of a result's life
        const Base::Ent& e = w.order[static_cast<std::size_t>(rng.below(static_cast<int>(w.order.size())))];
        i64 left = e.hi + w.ttl - g_steady_ns - tick * rng.in(0, 3) + rng.in(-1, 1);
        if (left > 0) d = left;
      }
      g_steady_ns += d;
      ev("time_passes");
    } else if (what < 95) {
      // a copy takes the place of the wrapped function
      auto& w = ws[static_cast<std::size_t>(rng.below(static_cast<int>(ws.size())))];
      auto copy = w->copied();
      if (rng.chance(1, 2)) copy = copy->copied();
      // others live on without being called
      if (rng.chance(1, 2)) idle.push_back(std::move(w));
      if (rng.chance(1, 3)) idle.push_back(copy->copied());
      w = std::move(copy);
      ev("wrappers_copied");
    } else if (what < 97) {
      if (cfg.many && ws.size() < 7) create(rng.chance(2, 3) ? favourite : rng.below(kinds));
    } else {
      if (cfg.many && ws.size() > 1) {
        ws.erase(ws.begin() + rng.below(static_cast<int>(ws.size())));
        ev("wrappers_destroyed");
      }
    }
  }
  // as many results as there are places for, and more
  for (std::size_t w = 0; w < ws.size(); ++w)
    if (ws[w]->cap >= 100 && ws[w]->cap < 500 && rng.chance(1, 3)) {
      int wi = static_cast<int>(w), lists = std::min(static_cast<int>(ws[w]->cap) + rng.in(-2, 40), 500), from = rng.below(250);
      for (int round = 0; round < 2; ++round)
        for (int k = 0; k < lists; ++k) checked_call(wi, (from + k) % 250, k / 250, rng.below(4), Script{});
      ev("large_wrappers_filled");
    }
  // everything once more
  for (std::size_t w = 0; w < ws.size(); ++w)
    for (int a = 0; a < universe; ++a)
      if (rng.chance(2, 3)) checked_call(static_cast<int>(w), a, rng.below(2), rng.below(4), Script{});
  ws.clear();
  idle.clear();
  if (g_tracked[0].live || g_tracked[1].live)
    fail("LIFE", strf("%llu keys and %llu values outlive all wrapped functions", (unsigned long long)g_tracked[0].live, (unsigned long long)g_tracked[1].live));
}

bool wrap_case(const Config& cfg, u64 seed, bool collect, u64* digest) {
  g_status->seed = seed;
  for (int attempt = 0;; ++attempt) {
    i64 blocks = g_live_blocks;
    bool nontrivial = false;
    u64 hash = 0;
    try {
      Driver d(cfg, seed);
      d.run();
      nontrivial = d.nontrivial;
      hash = d.hash;
    } catch (const CaseAbort&) {
      count("foreign_divergences");
      return false;
    } catch (const std::exception& e) {
      report_failure("EXCEPTION", std::string("an unexpected exception escaped: ") + e.what());
    }
    if (g_live_blocks != blocks) {
      if (attempt == 0) continue;
      report_failure("LEAK", strf("%lld blocks allocated by the case were never freed", (long long)(g_live_blocks - blocks)));
    }
    if (digest) *digest = hash;
    if (collect && g_cov) {
      ++g_cov->evaluations;
      if (nontrivial) g_cov->distinct.insert(hash);
    }
    return true;
  }
}
}  // namespace wrapped
}  // namespace vp
