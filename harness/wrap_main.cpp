#include "drive.hpp"
#include "wrap.hpp"
using namespace vp;
int main(int argc, char** argv) {
  Args a = parse_args(argc, argv);
  wrapped::Config cfg;
  cfg.many = a.profile != "C14";
  cfg.report = a.profile != "C16";
  return drive(a, [&](u64 seed) {
    g_sampling = g_cov && g_cov->samples.empty() && g_cov->evaluations > 5;
    g_sample[0] = 0;
    wrapped::wrap_case(cfg, seed, true);
    if (g_sampling) g_cov->samples.push_back(strf("wrapped functions, case seed %llu, calls: ", (unsigned long long)seed) + g_sample);
    g_sampling = false;
  });
}
