// The wrapped functions of the workload, in parts (-DVP_PART=<n>) so that they
// can be compiled at the same time.
#include "wrap.hpp"

namespace vp {
namespace wrapped {
// Overwrites the stack below, so that dangling references do not read what was there.
static __attribute__((noinline)) void scribble() {
  volatile unsigned char junk[4096];
  for (auto& x : junk) x = 0x5a;
}

template <template <typename> class Holder, typename W>
std::unique_ptr<Base> hold(W&& w, const char* what) {
  auto h = std::make_unique<Holder<std::decay_t<W>>>(std::forward<W>(w));
  h->what = what;
  return h;
}

// Wraps one original. How capacity and time to live are passed varies: as
// temporaries, as variables changed afterwards, and as ones that die here.
// With Full == false only some of them, to limit what has to be compiled.
template <template <typename> class Holder, bool Full, typename F>
__attribute__((noinline)) std::unique_ptr<Base> make(F f, int fid, const char* what, Rng& rng) {
  std::unique_ptr<Base> r;
  std::size_t cap = static_cast<std::size_t>(rng.chance(1, 9) ? 0 : rng.chance(1, 10) ? rng.in(6, 90) : rng.in(1, 5));
  if (rng.chance(1, 14)) cap = ~std::size_t(0) >> rng.below(40);
  if (rng.chance(1, 25)) cap = static_cast<std::size_t>(rng.in(100, 450));
  int how = rng.below(4);
  bool timed = rng.chance(2, 5);
  i64 ttl = 0;
  if (!timed) {
    if (!Full) how = 1;
    if (how == 1) {
      std::size_t variable = cap;
      auto w = LRU::wrap(f, variable);
      variable = 77;
      r = hold<Holder>(std::move(w), what);
      variable = 1;
    }
    if constexpr (Full) {
      if (how == 0) {
        r = hold<Holder>(LRU::wrap(f, cap + 0), what);
      } else if (how == 2) {
        auto where = std::make_unique<const std::size_t>(cap);
        r = hold<Holder>(LRU::wrap(f, *where), what);
        where.reset();
      } else if (how == 3) {
        cap = 128;
        r = hold<Holder>(LRU::wrap(f), what);
      }
    }
  } else {
    ttl = static_cast<i64>(rng.in(1, 6)) * 10000000;   // 10..60 ms
    if (rng.chance(1, 10)) ttl = static_cast<i64>(rng.in(1, 100)) * 3600 * 1000000000ll;
    else if (rng.chance(1, 10)) ttl = rng.chance(1, 3) ? 0 : rng.in(1, 3) * 1000000;
    if (!Full) how = 1;
    if (how == 1) {
      std::size_t variable = cap;
      std::chrono::milliseconds duration(ttl / 1000000);
      auto w = LRU::timed_wrap(f, duration, variable);
      variable = 77;
      duration = std::chrono::milliseconds(100000);
      r = hold<Holder>(std::move(w), what);
      variable = 1;
    }
    if constexpr (Full) {
      if (how == 0) {
        if (rng.chance(1, 4)) ttl = rng.in(0, 5) * 250000 + rng.below(2);
        r = hold<Holder>(LRU::timed_wrap(f, std::chrono::nanoseconds(ttl), cap + 0), what);
      } else if (how == 2) {
        auto where = std::make_unique<std::pair<std::chrono::microseconds, std::size_t>>(std::chrono::microseconds(ttl / 1000), cap);
        r = hold<Holder>(LRU::wrap<F, LRU::TimedCache>(f, where->first, where->second), what);
        where->second = 99;
        where.reset();
      } else if (how == 3) {
        cap = 128;
        ttl = 1000000000ll * rng.in(1, 2);
        r = hold<Holder>(LRU::timed_wrap(f, std::chrono::seconds(ttl / 1000000000)), what);
      }
    }
  }
  r->fid = fid;
  r->cap = cap;
  r->timed = timed;
  r->ttl = ttl;
  return r;
}

#if VP_PART == 1
std::unique_ptr<Base> create_part1(int kind, int n, int fid, Rng& rng) {
  std::unique_ptr<Base> w;
  (void)n;
  (void)fid;
  switch (kind) {
    case 0:
      if (n == 0) w = make<IntWrapper, true>(&plain<0>, 100, "int(*)(int,int)", rng);
      else if (n == 1) w = make<IntWrapper, true>(&plain<1>, 101, "int(*)(int,int)", rng);
      else w = make<IntWrapper, true>(&plain<2>, 102, "int(*)(int,int)", rng);
      break;
    case 2:
      if (n == 0) w = make<TextWrapper, false>(&plain_text<0>, 300, "string(*)(string,string)", rng);
      else w = make<TextWrapper, false>(&plain_text<1>, 301, "string(*)(string,string)", rng);
      break;
    default: break;
  }
  scribble();
  return w;
}
#elif VP_PART == 2
std::unique_ptr<Base> create_part2(int kind, int n, int fid, Rng& rng) {
  std::unique_ptr<Base> w;
  (void)n;
  (void)fid;
  switch (kind) {
    case 1:
      if (n == 0) w = make<LongWrapper, false>(&plain_long<0>, 200, "int(*)(long,long)", rng);
      else w = make<LongWrapper, false>(&plain_long<1>, 201, "int(*)(long,long)", rng);
      break;
    case 4:
      if (n == 0) w = make<OneWrapper, false>(&plain_one<0>, 500, "int(*)(const string&)", rng);
      else w = make<OneWrapper, false>(&plain_one<1>, 501, "int(*)(const string&)", rng);
      break;
    case 12:
      if (n == 0) w = make<ThreeWrapper, false>(&plain_three<0>, 700, "double(*)(int,string,long)", rng);
      else w = make<ThreeWrapper, false>(&plain_three<1>, 701, "double(*)(int,string,long)", rng);
      break;
    case 9: {
      auto closure = [fid] { return original_called(fid, 0, 0); };
      w = make<NoneWrapper, false>(closure, fid, "closure without arguments", rng);
      break;
    }
    case 15: {
      Overloaded f{fid};
      w = make<OverloadedWrapper, false>(f, fid, "overloaded functor", rng);
      f.fid = -1;
      break;
    }
    case 10: {
      auto closure = [fid](auto a) { return original_called(fid, static_cast<int>(a), 0); };
      w = make<GenericWrapper, false>(closure, fid, "generic closure", rng);
      break;
    }
    default: break;
  }
  scribble();
  return w;
}
#elif VP_PART == 3
std::unique_ptr<Base> create_part3(int kind, int n, int fid, Rng& rng) {
  std::unique_ptr<Base> w;
  (void)n;
  (void)fid;
  switch (kind) {
    case 3:
      if (n == 0) w = make<TrackedWrapper, false>(&plain_tracked<0>, 400, "TVal(*)(TKey,const TKey&)", rng);
      else w = make<TrackedWrapper, false>(&plain_tracked<1>, 401, "TVal(*)(TKey,const TKey&)", rng);
      break;
    case 13:
      if (n == 0) w = make<ManyWrapper, false>(&plain_many<0>, 800, "const char*(*)(bool,char,enum,pointer,short,float)", rng);
      else w = make<ManyWrapper, false>(&plain_many<1>, 801, "const char*(*)(bool,char,enum,pointer,short,float)", rng);
      break;
    case 14:
      if (n == 0) w = make<ZeroWrapper, false>(&plain_zero<0>, 900, "pair<int,bool>(*)(double,float)", rng);
      else w = make<ZeroWrapper, false>(&plain_zero<1>, 901, "pair<int,bool>(*)(double,float)", rng);
      break;
    case 6: {
      Functor f{fid};
      w = make<FunctorWrapper, false>(f, fid, "functor", rng);
      f.fid = -1;
      f.name = "";
      break;
    }
    case 7: {
      // closures of one type with different captures
      auto closure = [fid](int a, int b) { return original_called(fid, number_id(a), number_id(b)); };
      w = make<IntWrapper, true>(closure, fid, "closure", rng);
      break;
    }
    default: break;
  }
  scribble();
  return w;
}
#elif VP_PART == 4
std::unique_ptr<Base> create_part4(int kind, int n, int fid, Rng& rng) {
  std::unique_ptr<Base> w;
  (void)n;
  (void)fid;
  switch (kind) {
    case 5:
      if (n == 0) w = make<FourWrapper, false>(&plain_four<0>, 600, "vector(*)(int,string,char,double)", rng);
      else w = make<FourWrapper, false>(&plain_four<1>, 601, "vector(*)(int,string,char,double)", rng);
      break;
    case 8: {
      std::string captured = "captured text that needs the heap";
      std::function<std::string(const std::string&, std::string)> f = [fid, captured](const std::string& a, std::string b) {
        return text_result(original_called(captured.size() == 33 ? fid : -1, text_id(a), text_id(b)));
      };
      w = make<TextWrapper, false>(f, fid, "std::function", rng);
      f = nullptr;
      break;
    }
    case 11: {
      auto closure = [fid](auto x) {
        if constexpr (std::is_same<decltype(x), int>::value) return original_called(fid, x, 0);
        else return text_result(original_called(fid, text_id(x), 1));
      };
      w = make<TypedWrapper, false>(closure, fid, "closure called with different types", rng);
      break;
    }
    default: break;
  }
  scribble();
  return w;
}
#endif
}  // namespace wrapped
}  // namespace vp
