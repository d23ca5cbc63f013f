// main() of the lockstep engine for one configuration.
#ifndef VP_WORLD_MAIN_HPP
#define VP_WORLD_MAIN_HPP
#include "drive.hpp"
#include "world.hpp"

namespace vp {

template <typename T>
bool run_case(const Settings& set, u64 seed, const std::vector<int>* only, u64* digest = nullptr) {
  g_status->seed = seed;
  g_status->op = 0;
  for (int attempt = 0;; ++attempt) {
    i64 blocks = g_live_blocks;
    bool aborted = false, nontrivial = false;
    u64 hash = 0;
    {
      World<T> world(set, seed);
      try {
        world.run(only);
        nontrivial = world.nontrivial;
        hash = world.outcome_hash;
      } catch (const CaseAbort&) {
        aborted = true;
      } catch (const std::exception& e) {
        report_failure("EXCEPTION", std::string("an unexpected exception escaped: ") + e.what());
      }
    }
    if (aborted) return false;
    if (g_live_blocks != blocks) {
      // once may be a lazily allocated buffer somewhere, twice is a leak
      if (attempt == 0) continue;
      report_failure("LEAK", strf("%lld blocks allocated by the case were never freed", (long long)(g_live_blocks - blocks)));
    }
    if (digest) *digest = hash;
    if (g_cov) {
      ++g_cov->evaluations;
      if (nontrivial) g_cov->distinct.insert(hash);
    }
    return true;
  }
}

#ifdef VP_FAULT
// One history with a failure at every point of one of its operations in turn.
template <typename T>
void run_fault_case(const Settings& set, u64 seed, const char* name) {
  g_status->seed = seed;
  bool fired = true;
  for (long point = 0; fired && point < 2000; ++point) {
    bool aborted = false;
    for (int attempt = 0;; ++attempt) {
      g_status->op = 0;
      g_sampling = g_cov && g_cov->samples.empty() && g_cov->evaluations > 40 && point == 1;
      g_sample[0] = 0;
      i64 blocks = g_live_blocks;
      u64 hash = 0;
      bool nontrivial = false;
      aborted = false;
      {
        World<T> world(set, seed);
        try {
          fired = world.run_fault(point);
          hash = world.outcome_hash;
          nontrivial = world.nontrivial;
        } catch (const CaseAbort&) {
          aborted = true;
        } catch (const std::exception& e) {
          report_failure("EXCEPTION", std::string("an unexpected exception escaped: ") + e.what());
        }
      }
      if (g_sampling && !aborted && fired)
        g_cov->samples.push_back(strf("%s, case seed %llu: ", name, (unsigned long long)seed) + g_sample);
      g_sampling = false;
      if (aborted) break;
      if (g_live_blocks != blocks) {
        if (attempt == 0) continue;
        report_failure("LEAK", strf("%lld blocks were never freed in a history with a failure at point %ld", (long long)(g_live_blocks - blocks), point));
      }
      if (g_cov && fired) {
        ++g_cov->evaluations;
        if (nontrivial) g_cov->distinct.insert(mix(hash, static_cast<u64>(point)));
      }
      break;
    }
    if (aborted) break;
  }
}
#endif

template <typename T>
int world_main(int argc, char** argv, const char* name) {
  Args a = parse_args(argc, argv);
  Settings set;
  settings_for(a.profile, set);
  set.trace = a.trace;
  const std::vector<int>* only = a.has_only ? &a.only : nullptr;
#ifdef VP_FAULT
  (void)only;
  return drive(a, [&](u64 seed) { run_fault_case<T>(set, seed, name); });
#endif
  return drive(a, [&](u64 seed) {
    g_sampling = g_cov && g_cov->samples.empty() && g_cov->evaluations > 5;
    g_sample[0] = 0;
    std::size_t before = g_cov ? g_cov->distinct.size() : 0;
    bool ok = run_case<T>(set, seed, only);
    if (g_sampling && ok && g_cov->distinct.size() > before)
      g_cov->samples.push_back(strf("%s, case seed %llu, operations with the cache before each (* expired): ", name, (unsigned long long)seed) + g_sample);
    g_sampling = false;
  });
}
}  // namespace vp
#endif
