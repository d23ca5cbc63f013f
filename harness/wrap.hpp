// Wrapped functions against a model of memoization (C14, C15, and with other
// workloads C16, C21).
#ifndef VP_WRAP_HPP
#define VP_WRAP_HPP
#include <climits>
#include "rt.hpp"
#include <lru/lru.hpp>

namespace vp {
namespace wrapped {

// What the body of an original does, decided by the driver before the call.
struct Inner {
  int wrapper, a, b, style;
};
struct Script {
  bool throws = false;
  i64 takes = 0;               // time that passes inside the original
  std::vector<Inner> inner;    // recursive calls of wrappers
};
struct Call {                  // what an original was called with
  int fid;
  int a, b;
};

class Driver;
extern thread_local Driver* g_driver;
// Called by every original; returns the serial number of the result.
int original_called(int fid, int a, int b);

struct Base {
  virtual ~Base() = default;
  // performs the call, returns the serial number carried by the result
  virtual int call(int a, int b, int style) = 0;
  // a copy of the wrapped function, which takes the place of this one
  virtual std::unique_ptr<Base> copied() const = 0;
  int fid = 0;
  bool per_type = false;   // b tells the type of the arguments, and each has a cache of its own
  int arity = 2;     // how many of a, b matter
  int limit = 250;   // a is below it
  bool timed = false;
  std::size_t cap = 0;
  i64 ttl = 0;
  // model: least recently used first
  struct Ent { int a, b, serial; i64 lo, hi; };   // stored at some time in [lo, hi]
  std::vector<Ent> order;
  const char* what = "";
};

// ---------------------------------------------------------------- originals
// The numbers behind small ids: themselves, or the unusual ones.
extern thread_local bool g_unusual;
inline int number(int id) {
  static const int t[] = {0, -1, INT_MAX, INT_MIN, 65536, -65536, 256, 1};
  return g_unusual && id >= 0 && id < 8 ? t[id] : id;
}
inline long long_number(int id) {
  static const long t[] = {0, 1, 1l << 32, -1, LONG_MAX, LONG_MIN, (1l << 32) + 1, 0xffffffffl};
  return g_unusual && id >= 0 && id < 8 ? t[id] : id;
}
inline int number_id(int x) {
  for (int i = 0; i < 8; ++i) if (number(i) == x) return i;
  return x >= 8 && x < 250 ? x : -6;
}
inline int long_number_id(long x) {
  for (int i = 0; i < 8; ++i) if (long_number(i) == x) return i;
  return x >= 8 && x < 250 ? static_cast<int>(x) : -6;
}
// Results: a number, and for other types an empty object for zero.
inline std::string text_result(int r) { return r == 0 ? std::string() : std::to_string(r) + ":result"; }
inline int text_result_id(const std::string& s) {
  int r = std::atoi(s.c_str());
  return s == text_result(r) ? r : -5;
}
// Several plain functions of one signature.
template <int N> int plain(int a, int b) { return original_called(100 + N, number_id(a), number_id(b)); }
template <int N> int plain_long(long a, long b) { return original_called(200 + N, long_number_id(a), long_number_id(b)); }
inline std::string text(int x) {
  return x % 3 == 0 ? "arg" + std::to_string(x) + std::string(30, '-') : "arg" + std::to_string(x);
}
inline int text_id(const std::string& s) {
  if (s.compare(0, 3, "arg") != 0) return -7;
  int x = std::atoi(s.c_str() + 3);
  return text(x) == s ? x : -8;
}
template <int N> std::string plain_text(std::string a, std::string b) {
  return text_result(original_called(300 + N, text_id(a), text_id(b)));
}
template <int N> TVal plain_tracked(TKey a, const TKey& b) { return TVal(original_called(400 + N, a.id(), b.id())); }
template <int N> int plain_one(const std::string& a) { return original_called(500 + N, text_id(a), 0); }
template <int N> std::vector<int> plain_four(int a, std::string b, char c, double d) {
  bool ok = c == static_cast<char>('A' + a % 20) && d == a + 0.5;
  int r = original_called(600 + N, ok ? a : -9, text_id(b));
  return r == 0 ? std::vector<int>() : std::vector<int>(3, r);
}
template <int N> double plain_three(int a, std::string b, long c) {
  bool ok = c == a * 7l - 1;
  int r = original_called(700 + N, ok ? a : -9, text_id(b));
  return r + 0.25;
}
enum class Colour : unsigned char { red, green };
template <int N> const char* plain_many(bool odd, char c, Colour colour, const Base* base, unsigned short u, float f) {
  extern const char* const many_results[];
  bool ok = odd == (c & 1) && base == reinterpret_cast<const Base*>(&many_results[c]) && f == c + 0.5f && u == c;
  int r = original_called(800 + N, ok ? c : -9, colour == Colour::green);
  return many_results[0] + (r & 0xffff);
}
// zero of either sign is the same argument
template <int N> std::pair<int, bool> plain_zero(double a, float b) {
  int r = original_called(900 + N, static_cast<int>(a), static_cast<int>(b));
  return {r, r == 0};
}
extern const char* const many_results[];
// A functor with state; changed after wrapping, the wrapped copy keeps its own.
struct Functor {
  int fid;
  std::string name = "functor with a name that needs the heap";
  int operator()(const std::string& a, int b) const {
    return original_called(name.size() == 39 ? fid : -1, text_id(a), b);
  }
};

// ---------------------------------------------------------------- calling them
enum { LVALUE = 0, CONST_LVALUE = 1, RVALUE = 2, MIXED = 3 };

template <typename W>
struct IntWrapper : Base {
  W w;
  std::unique_ptr<Base> copied() const override { auto r = std::make_unique<IntWrapper>(W(w)); static_cast<Base&>(*r) = *this; return r; }
  explicit IntWrapper(W&& x) : w(std::move(x)) {}
  int call(int a, int b, int style) override {
    a = number(a);
    b = number(b);
    if (style == CONST_LVALUE) {
      const int x = a, y = b;
      return w(x, y);
    }
    if (style == RVALUE) return w(int(a), int(b));
    int x = a, y = b;
    int r = style == MIXED ? w(x, int(b)) : w(x, y);
    arguments_kept(x == a && y == b);
    return r;
  }
  static void arguments_kept(bool ok) {
    if (!ok) report_failure("ARGS", "a call changed the variables passed to the wrapped function");
  }
};
template <typename W>
struct LongWrapper : Base {
  W w;
  std::unique_ptr<Base> copied() const override { auto r = std::make_unique<LongWrapper>(W(w)); static_cast<Base&>(*r) = *this; return r; }
  explicit LongWrapper(W&& x) : w(std::move(x)) {}
  int call(int a, int b, int style) override {
    long x = long_number(a), y = long_number(b);
    if (style == RVALUE) return w(long_number(a), long_number(b));
    int r = w(x, y);
    if (x != long_number(a) || y != long_number(b)) report_failure("ARGS", "a call changed the variables passed to the wrapped function");
    return r;
  }
};
template <typename W>
struct TextWrapper : Base {
  W w;
  std::unique_ptr<Base> copied() const override { auto r = std::make_unique<TextWrapper>(W(w)); static_cast<Base&>(*r) = *this; return r; }
  explicit TextWrapper(W&& x) : w(std::move(x)) {}
  int call(int a, int b, int style) override {
    std::string x = text(a), y = text(b);
    std::string r;
    if (style == CONST_LVALUE) {
      const std::string& cx = x;
      const std::string& cy = y;
      r = w(cx, cy);
    } else if (style == RVALUE) {
      r = w(text(a), std::move(y));
    } else if (style == MIXED) {
      r = w(std::move(x), y);
      x = text(a);
    } else {
      r = w(x, y);
    }
    if (style != RVALUE && (x != text(a) || y != text(b))) IntWrapper<W>::arguments_kept(false);
    return text_result_id(r);
  }
};
template <typename W>
struct TrackedWrapper : Base {
  W w;
  std::unique_ptr<Base> copied() const override { auto r = std::make_unique<TrackedWrapper>(W(w)); static_cast<Base&>(*r) = *this; return r; }
  explicit TrackedWrapper(W&& x) : w(std::move(x)) {}
  int call(int a, int b, int style) override {
    if (style == RVALUE) return w(TKey(a), TKey(b)).id();
    TKey x(a), y(b);
    int r = style == MIXED ? w(x, TKey(b)).id() : w(x, y).id();
    if (x.id() != a || y.id() != b) IntWrapper<W>::arguments_kept(false);
    return r;
  }
};
template <typename W>
struct OneWrapper : Base {
  W w;
  std::unique_ptr<Base> copied() const override { auto r = std::make_unique<OneWrapper>(W(w)); static_cast<Base&>(*r) = *this; return r; }
  explicit OneWrapper(W&& x) : w(std::move(x)) { arity = 1; }
  int call(int a, int, int style) override {
    if (style == RVALUE) return w(text(a));
    std::string x = text(a);
    int r = w(x);
    if (x != text(a)) IntWrapper<W>::arguments_kept(false);
    return r;
  }
};
template <typename W>
struct FourWrapper : Base {
  W w;
  std::unique_ptr<Base> copied() const override { auto r = std::make_unique<FourWrapper>(W(w)); static_cast<Base&>(*r) = *this; return r; }
  explicit FourWrapper(W&& x) : w(std::move(x)) {}
  int call(int a, int b, int style) override {
    std::string s = text(b);
    char c = static_cast<char>('A' + a % 20);
    std::vector<int> r = style == RVALUE ? w(int(a), text(b), char(c), double(a + 0.5)) : w(a, s, c, a + 0.5);
    if (s != text(b)) IntWrapper<W>::arguments_kept(false);
    return r.empty() ? 0 : r.size() == 3 && r[0] == r[1] && r[1] == r[2] ? r[0] : -5;
  }
};
template <typename W>
struct FunctorWrapper : Base {
  W w;
  std::unique_ptr<Base> copied() const override { auto r = std::make_unique<FunctorWrapper>(W(w)); static_cast<Base&>(*r) = *this; return r; }
  explicit FunctorWrapper(W&& x) : w(std::move(x)) {}
  int call(int a, int b, int style) override {
    std::string x = text(a);
    int r = style == RVALUE ? w(text(a), int(b)) : w(x, b);
    if (x != text(a)) IntWrapper<W>::arguments_kept(false);
    return r;
  }
};
template <typename W>
struct NoneWrapper : Base {
  W w;
  std::unique_ptr<Base> copied() const override { auto r = std::make_unique<NoneWrapper>(W(w)); static_cast<Base&>(*r) = *this; return r; }
  explicit NoneWrapper(W&& x) : w(std::move(x)) { arity = 0; }
  int call(int, int, int) override { return w(); }
};
template <typename W>
struct ThreeWrapper : Base {
  W w;
  std::unique_ptr<Base> copied() const override { auto r = std::make_unique<ThreeWrapper>(W(w)); static_cast<Base&>(*r) = *this; return r; }
  explicit ThreeWrapper(W&& x) : w(std::move(x)) {}
  int call(int a, int b, int style) override {
    std::string s = text(b);
    const long c = a * 7l - 1;
    double r = style == RVALUE ? w(int(a), text(b), long(c)) : style == MIXED ? w(a, text(b), c) : w(a, s, c);
    if (s != text(b)) IntWrapper<W>::arguments_kept(false);
    return static_cast<int>(r - 0.25);
  }
};
template <typename W>
struct ManyWrapper : Base {
  W w;
  std::unique_ptr<Base> copied() const override { auto r = std::make_unique<ManyWrapper>(W(w)); static_cast<Base&>(*r) = *this; return r; }
  explicit ManyWrapper(W&& x) : w(std::move(x)) { limit = 100; }
  int call(int a, int b, int) override {
    const char* r = w((a & 1) != 0, static_cast<char>(a), b ? Colour::green : Colour::red, reinterpret_cast<const Base*>(&many_results[a]),
                      static_cast<unsigned short>(a), a + 0.5f);
    return static_cast<short>(r - many_results[0]);
  }
};
template <typename W>
struct ZeroWrapper : Base {
  W w;
  std::unique_ptr<Base> copied() const override { auto r = std::make_unique<ZeroWrapper>(W(w)); static_cast<Base&>(*r) = *this; return r; }
  explicit ZeroWrapper(W&& x) : w(std::move(x)) {}
  int call(int a, int b, int style) override {
    double x = a ? a : style & 1 ? 0.0 : -0.0;
    float y = b ? static_cast<float>(b) : style & 2 ? 0.0f : -0.0f;
    std::pair<int, bool> r = w(x, y);
    return r.second == (r.first == 0) ? r.first : -5;
  }
};
// One wrapper called with arguments of different types: a cache for each.
template <typename W>
struct GenericWrapper : Base {
  W w;
  std::unique_ptr<Base> copied() const override { auto r = std::make_unique<GenericWrapper>(W(w)); static_cast<Base&>(*r) = *this; return r; }
  explicit GenericWrapper(W&& x) : w(std::move(x)) { arity = 1; }
  int call(int a, int, int style) override {
    if (style == RVALUE) return w(int(a));
    int x = a;
    const int y = a;
    return style == MIXED ? w(y) : w(x);
  }
};

// One wrapper called with arguments of different types: the second id says which.
template <typename W>
struct TypedWrapper : Base {
  W w;
  std::unique_ptr<Base> copied() const override { auto r = std::make_unique<TypedWrapper>(W(w)); static_cast<Base&>(*r) = *this; return r; }
  explicit TypedWrapper(W&& x) : w(std::move(x)) { per_type = true; }
  int call(int a, int b, int style) override {
    if (b == 0) {
      if (style == RVALUE) return w(int(a));
      int x = a;
      return w(x);
    }
    if (style == RVALUE) return text_result_id(w(text(a)));
    std::string x = text(a);
    int r = text_result_id(w(x));
    if (x != text(a)) IntWrapper<W>::arguments_kept(false);
    return r;
  }
};

// A functor whose result type depends on the kind of reference it is called with.
struct Overloaded {
  int fid;
  int operator()(const int& a) const { return original_called(fid, number_id(a), 0); }
  std::string operator()(int&& a) const { return text_result(original_called(fid, number_id(a), 1)); }
};
template <typename W>
struct OverloadedWrapper : Base {
  W w;
  std::unique_ptr<Base> copied() const override { auto r = std::make_unique<OverloadedWrapper>(W(w)); static_cast<Base&>(*r) = *this; return r; }
  explicit OverloadedWrapper(W&& x) : w(std::move(x)) { per_type = true; }
  int call(int a, int b, int style) override {
    int x = number(a);
    if (b == 0) return style == CONST_LVALUE ? w(static_cast<const int&>(x)) : w(x);
    std::string r = style == RVALUE ? w(int(x)) : w(std::move(x));
    return text_result_id(r);
  }
};

// ---------------------------------------------------------------- the driver
struct Config {
  bool many = true;         // several wrappers at once
  bool recursion = true;
  bool report = true;       // divergences are failures (else only crashes are)
};

class Driver {
 public:
  Config cfg;
  Rng rng;
  std::vector<std::unique_ptr<Base>> ws;
  int next_fid = 1000;
  int serial = 0;
  i64 tick = 0;             // time between any two readings of the clock
  // state of the call in progress
  struct Frame {
    Base* w;
    int a, b;
    int cached;            // there is a result that may be served
    Base::Ent ent;
    bool called = false;
    Script script;
    int result = 0;
    i64 done = 0;          // when the original returned
    i64 tick = 0;
  };
  std::vector<Frame> frames;
  u64 hash = 7;
  bool nontrivial = false;
  u64 steps = 0;

  Driver(const Config& c, u64 seed) : cfg(c), rng(seed) {
    g_steady_ns = 5000000000000ll + static_cast<i64>(seed % 1000);
    g_driver = this;
    g_unusual = seed % 3 == 0;
  }
  ~Driver() {
    g_driver = nullptr;
    g_tick_ns = 0;
    g_unusual = false;
  }

  [[noreturn]] void fail(const char* kind, const std::string& m) {
    g_status->op = steps;
    if (!cfg.report) throw CaseAbort{};
    report_failure(kind, m);
  }
  void ev(const char* name) {
    count(name);
    u64 h = 0;
    for (const char* p = name; *p; ++p) h = h * 31 + static_cast<unsigned char>(*p);
    hash = mix(hash, h);
  }

  int find(Base& w, int a, int b) {
    for (std::size_t i = 0; i < w.order.size(); ++i)
      if ((w.arity < 1 || w.order[i].a == a) && (w.arity < 2 || w.order[i].b == b)) return static_cast<int>(i);
    return -1;
  }
  // With a clock that advances on every reading both can hold.
  bool may_live(Base& w, const Base::Ent& e, i64 since) { return !w.timed || since - e.hi <= w.ttl; }
  bool may_be_expired(Base& w, const Base::Ent& e) { return w.timed && g_steady_ns - e.lo > w.ttl; }
  void store(Base& w, int a, int b, int s, i64 since) {
    if (w.cap == 0) return;
    int i = find(w, a, b);
    if (i >= 0) w.order.erase(w.order.begin() + i);
    else {
      std::size_t n = w.order.size(), first = 0;
      if (w.per_type) {
        n = 0;
        for (std::size_t j = w.order.size(); j-- > 0;)
          if (w.order[j].b == b) { ++n; first = j; }
      }
      if (n >= w.cap) { w.order.erase(w.order.begin() + static_cast<long>(first)); ev("results_evicted"); }
    }
    w.order.push_back({a, b, s, since, g_steady_ns});
  }

  // The original of the innermost call in progress runs.
  int original(int fid, int a, int b) {
    if (frames.empty()) fail("CALLS", strf("original %d ran although no wrapped function is being called", fid));
    std::size_t depth = frames.size() - 1;
    {
      Frame& f = frames[depth];
      if (fid != f.w->fid) fail("ISOL", strf("original %d ran for a wrapper of original %d", fid, f.w->fid));
      if (f.called) fail("CALLS", strf("the original ran twice in one call (%s, %d %d)", f.w->what, a, b));
      if (f.cached && !may_be_expired(*f.w, f.ent))
        fail("CALLS", strf("the original ran although a result for (%d, %d) is cached (%s, capacity %zu)", f.a, f.b, f.w->what, f.w->cap));
      if ((f.w->arity > 0 && a != f.a) || (f.w->arity > 1 && b != f.b))
        fail("CALLS", strf("the original got arguments (%d, %d) instead of (%d, %d)", a, b, f.a, f.b));
      f.called = true;
    }
    Script script = frames[depth].script;
    g_tick_ns = 0;
    if (script.takes) { g_steady_ns += script.takes; ev("originals_taking_time"); }
    for (auto& in : script.inner) {
      Script next;
      if (depth < 4 && rng.chance(1, 4)) {
        next.inner.push_back(Inner{rng.chance(2, 3) ? in.wrapper : rng.below(static_cast<int>(ws.size())), in.a + rng.in(-1, 1), rng.below(2), rng.below(4)});
        if (next.inner[0].a < 0) next.inner[0].a = 0;
        next.throws = rng.chance(1, 12);
        ev("deep_recursions");
      }
      checked_call(in.wrapper, in.a, in.b, in.style, next);
      ev("recursive_calls");
    }
    if (script.throws) { ev("originals_throwing"); g_tick_ns = frames[depth].tick; throw InjectedFault(77); }
    // Mostly results that tell who made them, and now and then one that others made, too.
    int s = ++serial;
    if (rng.chance(1, 6)) { s = 0; ev("default_results"); }
    else if (rng.chance(1, 12)) s = -rng.in(0, 2);
    else if (rng.chance(1, 12)) s = rng.in(1, 3);
    frames[depth].result = s;
    frames[depth].done = g_steady_ns;
    g_tick_ns = frames[depth].tick;
    return s;
  }

  void checked_call(int wi, int a, int b, int style, const Script& script) {
    Base& w = *ws[static_cast<std::size_t>(wi)];
    a %= w.limit;
    ++steps;
    int i = find(w, a, b);
    i64 began = g_steady_ns;
    Base::Ent e{};
    if (i >= 0) e = w.order[static_cast<std::size_t>(i)];
    frames.push_back(Frame{&w, a, b, i >= 0, e, false, script, 0, 0, tick});
    bool threw = false;
    int got = 0;
    g_tick_ns = tick;
    try {
      got = w.call(a, b, style);
    } catch (const InjectedFault& f) {
      threw = true;
      if (f.kind != 77) fail("CALLS", "another exception escaped from the wrapped function");
    }
    g_tick_ns = 0;
    Frame f = frames.back();
    frames.pop_back();
    if (threw) {
      if (!f.called || !script.throws) fail("CALLS", "an exception escaped from a call that should return");
      hash = mix(hash, 1);
      return;
    }
    if (f.called) {
      ev(i >= 0 ? "results_expired" : "results_computed");
      if (i >= 0 && may_live(w, e, began)) ev("misses_on_the_edge");
      if (script.throws) fail("CALLS", "the exception of the original did not propagate");
      if (got != f.result) fail("RET", strf("the wrapped function returned result %d instead of %d", got, f.result));
      store(w, a, b, f.result, f.done);
    } else {
      if (i < 0 || !may_live(w, e, began))
        fail("CALLS", strf("a call with (%d, %d) did not run the original although no live result is cached (%s)", a, b, w.what));
      if (may_be_expired(w, e)) ev("hits_on_the_edge");
      if (got != e.serial) fail("RET", strf("the wrapped function returned result %d, cached is %d for (%d, %d), %s", got, e.serial, a, b, w.what));
      w.order.erase(w.order.begin() + i);
      w.order.push_back(e);
      ev("cached_results_returned");
      nontrivial = true;
    }
    hash = mix(hash, static_cast<u64>(got));
  }

  void create(int wanted);
  void run();
};

bool wrap_case(const Config& cfg, u64 seed, bool collect, u64* digest = nullptr);

}  // namespace wrapped
}  // namespace vp
#endif
