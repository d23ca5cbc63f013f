// Command line and loop over cases, common to all units.
#ifndef VP_DRIVE_HPP
#define VP_DRIVE_HPP
#include "rt.hpp"

namespace vp {

struct Args {
  std::string profile = "C02", cov, status;
  u64 seed = 1, cases = 100, one = 0;
  double seconds = 0;
  bool trace = false, single = false;
  std::vector<int> only;
  bool has_only = false;
};
inline Args parse_args(int argc, char** argv) {
  Args a;
  for (int i = 1; i < argc; ++i) {
    std::string x = argv[i];
    auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (x == "--profile") a.profile = val();
    else if (x == "--seed") a.seed = std::stoull(val());
    else if (x == "--cases") a.cases = std::stoull(val());
    else if (x == "--seconds") a.seconds = std::stod(val());
    else if (x == "--cov") a.cov = val();
    else if (x == "--status") a.status = val();
    else if (x == "--trace") a.trace = true;
    else if (x == "--single") { a.single = true; a.one = std::stoull(val()); }
    else if (x == "--only") {
      a.has_only = true;
      std::istringstream in(val());
      std::string n;
      while (std::getline(in, n, ',')) if (!n.empty()) a.only.push_back(std::stoi(n));
    }
  }
  return a;
}

// Runs case after case until the number or the time is reached.
template <typename F>
int drive(const Args& a, F one_case) {
  if (!a.status.empty()) status_open(a.status.c_str());
  static Coverage cov;
  if (a.single) {
    one_case(a.one);
    printf("case %llu: no violation\n", (unsigned long long)a.one);
    return 0;
  }
  g_cov = &cov;
  double start = now_s();
  u64 done = 0;
  for (u64 i = 0; i < a.cases; ++i) {
    if (a.seconds > 0 && (i & 7) == 0 && now_s() - start > a.seconds) break;
    u64 seed = mix(a.seed * 1000003ull + 17, i) >> 8;
    one_case(seed);
    ++done;
    g_status->cases = done;
  }
  if (!a.cov.empty()) cov.write(a.cov.c_str());
  printf("cases %llu\n", (unsigned long long)done);
  return 0;
}

}  // namespace vp
#endif
