#include "rt.hpp"
#include <cstdarg>

namespace vp {
thread_local i64 g_steady_ns = 1000000000000;
thread_local i64 g_system_ns = 1600000000000000000;
thread_local i64 g_tick_ns = 0;
thread_local u64 g_clock_reads = 0;
thread_local i64 g_live_blocks = 0;
thread_local u64 g_allocs = 0;
thread_local FaultState g_fault;
thread_local Coverage* g_cov = nullptr;
thread_local char g_sample[1300];
thread_local bool g_sampling = false;
void sample(const char* format, ...) {
  if (!g_sampling) return;
  std::size_t n = std::strlen(g_sample);
  if (n + 200 > sizeof g_sample) return;
  va_list ap;
  va_start(ap, format);
  vsnprintf(g_sample + n, sizeof g_sample - n, format, ap);
  va_end(ap);
}
thread_local TrackedList g_tracked[2];
static thread_local Status g_local_status;
thread_local Status* g_status = &g_local_status;

void status_open(const char* path) {
  int fd = open(path, O_RDWR | O_CREAT, 0644);
  if (fd < 0 || ftruncate(fd, sizeof(Status)) != 0) return;
  void* p = mmap(nullptr, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (p != MAP_FAILED) g_status = static_cast<Status*>(p);
  close(fd);
}

std::string strf(const char* format, ...) {
  char buffer[1024];
  va_list ap;
  va_start(ap, format);
  vsnprintf(buffer, sizeof buffer, format, ap);
  va_end(ap);
  return buffer;
}

std::string json_escape(const std::string& s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
    else if (c < 32 || c > 126) r += strf("\\u%04x", c);
    else r += static_cast<char>(c);
  }
  return r;
}

void report_failure(const std::string& kind, const std::string& message) {
  g_fault.armed = false;
  std::string line = "@@FAIL {\"seed\": " + std::to_string(g_status->seed) + ", \"op\": " +
                     std::to_string(g_status->op) + ", \"kind\": \"" + json_escape(kind) +
                     "\", \"message\": \"" + json_escape(message) + "\"}\n";
  fflush(stdout);
  if (write(1, line.data(), line.size()) < 0) {}
  _exit(3);
}

void tracked_corrupt(const char* what) {
  report_failure("LIFE", std::string("an object is ") + what +
                 " although it is not alive (destroyed, or never constructed)");
}

void Coverage::write(const char* path) const {
  FILE* f = fopen(path, "w");
  if (!f) return;
  fprintf(f, "{\"evaluations\": %llu,\n \"distinct\": [", (unsigned long long)evaluations);
  bool first = true;
  for (u64 h : distinct) { fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long)h); first = false; }
  fprintf(f, "],\n \"states\": %llu,\n \"counters\": {", (unsigned long long)states.size());
  first = true;
  std::map<std::string, u64> by_name;
  for (auto& p : counters) by_name[p.first] += p.second;
  for (auto& p : by_name) {
    fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", p.first.c_str(), (unsigned long long)p.second);
    first = false;
  }
  fprintf(f, "},\n \"samples\": [");
  first = true;
  for (auto& s : samples) { fprintf(f, "%s\"%s\"", first ? "" : ",\n  ", json_escape(s).c_str()); first = false; }
  fprintf(f, "]}\n");
  fclose(f);
}
}  // namespace vp

// The clocks the library reads. Defined here, they take the place of those in
// libstdc++, so that the monitors decide what time it is.
#ifndef VP_REAL_CLOCK
namespace std {
namespace chrono {
inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept {
  ++vp::g_clock_reads;
  vp::g_steady_ns += vp::g_tick_ns;
  return time_point(duration(vp::g_steady_ns));
}
system_clock::time_point system_clock::now() noexcept {
  vp::g_system_ns += vp::g_tick_ns;
  return time_point(duration(vp::g_system_ns));
}
}  // namespace _V2
}  // namespace chrono
}  // namespace std
#endif

// Allocation accounting and allocation faults. ASan still sees every block,
// because these call malloc.
#ifndef VP_NO_NEW
static void* vp_alloc(std::size_t n) {
  if (vp::fault_due(vp::FK_ALLOC)) return nullptr;
  void* p = std::malloc(n ? n : 1);
  if (p) { ++vp::g_live_blocks; ++vp::g_allocs; }
  return p;
}
void* operator new(std::size_t n) {
  void* p = vp_alloc(n);
  if (!p) throw std::bad_alloc();
  return p;
}
void* operator new[](std::size_t n) { return operator new(n); }
// Only failures that throw are injected.
static void* vp_alloc_nothrow(std::size_t n) {
  bool armed = vp::g_fault.armed;
  vp::g_fault.armed = false;
  void* p = vp_alloc(n);
  vp::g_fault.armed = armed;
  return p;
}
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { return vp_alloc_nothrow(n); }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { return vp_alloc_nothrow(n); }
void operator delete(void* p) noexcept { if (p) { --vp::g_live_blocks; std::free(p); } }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { operator delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { operator delete(p); }
#endif
