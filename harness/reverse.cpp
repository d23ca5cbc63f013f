// Known finding (known_findings.txt): an entry is stored in the iterator it was
// read through, so that a std::reverse_iterator, which reads through a
// temporary one, yields a reference to an entry that is gone. Kept in a unit of
// its own because the sanitizer ends the program there.
#include "drive.hpp"
#include <lru/lru.hpp>
using namespace vp;

template <typename C>
void backwards(C& c, int n) {
  int want = n;
  auto end = std::make_reverse_iterator(c.ordered_begin());
  for (auto it = std::make_reverse_iterator(c.ordered_end()); it != end; ++it) {
    --want;
    const auto& entry = *it;
    if (entry.first != want || entry.second != want * 3) report_failure("ITER", strf("reverse iteration yields %d=%d where %d is expected", entry.first, entry.second, want));
    count("entries_read_backwards");
  }
  if (want != 0) report_failure("ITER", "reverse iteration ends early");
}

int main(int argc, char** argv) {
  Args a = parse_args(argc, argv);
  return drive(a, [&](u64 seed) {
    Rng r(seed);
    int n = r.in(1, 12);
    LRU::Cache<int, int> c(12);
    LRU::TimedCache<int, int> t(std::chrono::hours(1), 12);
    for (int i = 0; i < n; ++i) { c.insert(i, i * 3); t.insert(i, i * 3); }
    if (seed & 1) backwards(c, n); else backwards(t, n);
    const auto& cc = c;
    backwards(cc, n);
    if (g_cov) { ++g_cov->evaluations; g_cov->distinct.insert(seed); }
  });
}
