// Runtime of the monitors: virtual clock, allocation accounting and faults,
// random numbers, tracked objects, failure reports and coverage counters.
#ifndef VP_RT_HPP
#define VP_RT_HPP
#include <fcntl.h>
#include <sys/mman.h>
#include <time.h>
#include <unistd.h>

namespace vp {

using u64 = std::uint64_t;
using i64 = std::int64_t;

// ---------------------------------------------------------------- random
struct Rng {
  u64 s;
  explicit Rng(u64 seed = 1) : s(seed * 0x9e3779b97f4a7c15ull + 0x1234567ull) {
    next();
    next();
  }
  u64 next() {
    u64 z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  // [0, n)
  int below(int n) { return n <= 0 ? 0 : static_cast<int>(next() % static_cast<u64>(n)); }
  // [a, b]
  int in(int a, int b) { return a + below(b - a + 1); }
  bool chance(int num, int den) { return below(den) < num; }
};

inline u64 mix(u64 h, u64 v) {
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull;
  return h ^ (h >> 33);
}

// ---------------------------------------------------------------- real time
inline double now_s() {
  timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return static_cast<double>(ts.tv_sec) + 1e-9 * static_cast<double>(ts.tv_nsec);
}

// ---------------------------------------------------------------- clocks
// The monotonic and the wall clock of the program are virtual (see rt.cpp).
// Every thread has its own.
extern thread_local i64 g_steady_ns;      // monotonic clock
extern thread_local i64 g_system_ns;      // wall clock, jumps back and forth
extern thread_local i64 g_tick_ns;        // advance on every reading
extern thread_local u64 g_clock_reads;

// ---------------------------------------------------------------- allocation
extern thread_local i64 g_live_blocks;    // blocks allocated by this thread and not freed
extern thread_local u64 g_allocs;
// Fault injection: the countdown is decremented at every fault point of an
// enabled kind while armed; the point at which it reaches zero fails.
enum FaultKind { FK_ALLOC = 1, FK_COPY = 2, FK_ASSIGN = 4, FK_CALLBACK = 8, FK_CTOR = 16, FK_FUNC = 32 };
struct FaultState {
  bool armed = false;
  int kinds = 0;
  long countdown = -1;   // < 0: only count
  long seen = 0;
  bool fired = false;
  int fired_kind = 0;
};
extern thread_local FaultState g_fault;
struct InjectedFault : std::exception {
  int kind;
  explicit InjectedFault(int k) : kind(k) {}
  const char* what() const noexcept override { return "injected fault"; }
};
inline bool fault_due(int kind) {
  if (!g_fault.armed || !(g_fault.kinds & kind)) return false;
  ++g_fault.seen;
  if (g_fault.countdown < 0) return false;
  if (g_fault.countdown-- == 0) {
    g_fault.fired = true;
    g_fault.fired_kind = kind;
    g_fault.armed = false;
    return true;
  }
  return false;
}
inline void fault_point(int kind) {
  if (fault_due(kind)) throw InjectedFault(kind);
}

// ---------------------------------------------------------------- status
// The case being run is kept in a shared mapping, so that the runner knows it
// when the process is killed by a sanitizer, a signal or std::terminate.
struct Status {
  u64 seed;
  u64 op;
  u64 cases;
  char note[232];
};
extern thread_local Status* g_status;   // of other threads: their own, not shared
void status_open(const char* path);

// ---------------------------------------------------------------- failures
struct CaseAbort {};   // a divergence that does not concern the property checked
[[noreturn]] void report_failure(const std::string& kind, const std::string& message);

// ---------------------------------------------------------------- coverage
struct Coverage {
  std::unordered_map<const char*, u64> counters;   // names are literals
  std::unordered_set<u64> distinct;       // hashes of distinct non-trivial cases
  std::unordered_set<u64> states;         // hashes of distinct states seen
  std::vector<std::string> samples;
  u64 evaluations = 0;
  void write(const char* path) const;
};
extern thread_local Coverage* g_cov;
// Text of the case being run, when it is to become a sample of the evidence.
extern thread_local char g_sample[1300];
extern thread_local bool g_sampling;
void sample(const char* format, ...) __attribute__((format(printf, 1, 2)));
inline void count(const char* name, u64 n = 1) {
  if (!g_cov) return;
  bool armed = g_fault.armed;
  g_fault.armed = false;
  i64 blocks = g_live_blocks;   // what is allocated here is not the code under test's
  g_cov->counters[name] += n;
  g_live_blocks = blocks;
  g_fault.armed = armed;
}

// ---------------------------------------------------------------- tracked objects
// Every object is in an intrusive list while it lives and owns a heap block, so
// that leaks, double destruction and use after destruction are all visible.
struct TrackedBase {
  static constexpr u64 ALIVE = 0xA11FEA11FEull;
  TrackedBase* prev;
  TrackedBase* next;
  u64 magic;
  u64 serial;
  int* payload;     // id; -1: moved from
};
struct TrackedList {
  TrackedBase* head = nullptr;
  u64 live = 0;
  u64 copies = 0, moves = 0, copy_assigns = 0, move_assigns = 0, ctors = 0, dtors = 0;
  u64 serial = 0;
};
extern thread_local TrackedList g_tracked[2];
[[noreturn]] void tracked_corrupt(const char* what);

template <int Which>
struct Tracked : TrackedBase {
  static TrackedList& list() { return g_tracked[Which]; }
  void link() {
    auto& l = list();
    prev = nullptr;
    next = l.head;
    if (l.head) l.head->prev = this;
    l.head = this;
    magic = ALIVE;
    serial = ++l.serial;
    ++l.live;
  }
  void check(const char* what) const {
    if (magic != ALIVE) tracked_corrupt(what);
  }
  Tracked() { fault_point(FK_CTOR); payload = new int(0); link(); ++list().ctors; }
  explicit Tracked(int id) { fault_point(FK_CTOR); payload = new int(id); link(); ++list().ctors; }
  Tracked(int hi, int lo) { fault_point(FK_CTOR); payload = new int(hi * 1000 + lo); link(); ++list().ctors; }
  Tracked(const Tracked& o) {
    o.check("copy constructed from");
    fault_point(FK_COPY);
    payload = new int(*o.payload);
    link();
    ++list().copies;
  }
  // Like a std::string, a moved-from object remains valid.
  Tracked(Tracked&& o) noexcept {
    o.check("move constructed from");
    payload = o.payload;
    o.payload = moved_from();
    link();
    ++list().moves;
  }
  Tracked& operator=(const Tracked& o) {
    check("assigned to");
    o.check("assigned from");
    fault_point(FK_ASSIGN);
    if (this != &o) {
      int* fresh = new int(*o.payload);
      release();
      payload = fresh;
    }
    ++list().copy_assigns;
    return *this;
  }
  Tracked& operator=(Tracked&& o) noexcept {
    check("move assigned to");
    o.check("move assigned from");
    if (this != &o) {
      release();
      payload = o.payload;
      o.payload = moved_from();
    }
    ++list().move_assigns;
    return *this;
  }
  ~Tracked() {
    check("destroyed");
    release();
    payload = nullptr;
    magic = 0xDEADull;
    auto& l = list();
    if (prev) prev->next = next; else l.head = next;
    if (next) next->prev = prev;
    --l.live;
    ++l.dtors;
  }
  int id() const {
    check("read");
    return *payload;
  }
  friend bool operator==(const Tracked& a, const Tracked& b) { return a.id() == b.id(); }
  friend bool operator!=(const Tracked& a, const Tracked& b) { return a.id() != b.id(); }

 private:
  static int* moved_from() {
    static int value = -1;
    return &value;
  }
  void release() {
    if (payload != moved_from()) delete payload;
  }
};
using TKey = Tracked<0>;
using TVal = Tracked<1>;

std::string strf(const char* format, ...) __attribute__((format(printf, 1, 2)));
std::string json_escape(const std::string& s);

}  // namespace vp

namespace std {
template <>
struct hash<vp::TKey> {
  size_t operator()(const vp::TKey& k) const { return static_cast<size_t>(k.id()); }
};
}  // namespace std
#endif
