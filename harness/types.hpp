// Keys and values of unusual types, for configurations 6 to 8.
#ifndef VP_TYPES_HPP
#define VP_TYPES_HPP
#include "world.hpp"

namespace vp {

// A key of a scoped enumeration wider than int.
enum class WideKey : long long {};

// A value that is over-aligned and large, cannot be default-constructed or
// converted to, and whose address and comma operators are not the usual ones.
struct alignas(64) Hostile {
  long long id;
  const void* self;
  char pad[150];
  Hostile() = delete;
  explicit Hostile(int i) : id(i), self(this) { std::memset(pad, i & 127, sizeof pad); check(); }
  Hostile(const Hostile& o) : id(o.id), self(this) { std::memcpy(pad, o.pad, sizeof pad); check(); }
  Hostile& operator=(const Hostile& o) {
    id = o.id;
    std::memmove(pad, o.pad, sizeof pad);
    check();
    return *this;
  }
  ~Hostile() { check(); self = nullptr; }
  void check() const {
    // moved in memory without its constructor, misaligned or overwritten
    if (self != static_cast<const void*>(std::addressof(id)) || reinterpret_cast<std::uintptr_t>(self) % 64 || pad[0] != (id & 127) || pad[149] != (id & 127))
      report_failure("LIFE", "a value object was moved, misaligned or overwritten");
  }
  friend bool operator==(const Hostile& a, const Hostile& b) { return a.id == b.id; }
  friend bool operator!=(const Hostile& a, const Hostile& b) { return a.id != b.id; }
  void operator&() const = delete;
  template <typename T> friend void operator,(const Hostile&, T&&) = delete;
  template <typename T> friend void operator,(T&&, const Hostile&) = delete;
};

// A value that can be made of anything and whose equality is coarser than identity.
struct Anything {
  int id;
  int arguments;
  template <typename T, typename = std::enable_if_t<!std::is_base_of<Anything, std::decay_t<T>>::value>>
  Anything(T&& t) : id(from(t)), arguments(1) {}
  Anything(std::initializer_list<int> l) : id(-5), arguments(static_cast<int>(l.size())) {}
  template <typename... As, typename = std::enable_if_t<(sizeof...(As) > 1)>>
  Anything(As&&...) : id(-4), arguments(sizeof...(As)) {}
  Anything(const Anything&) = default;
  Anything(Anything&&) = default;
  Anything& operator=(const Anything&) = default;
  Anything& operator=(Anything&&) = default;
  static int from(int i) { return i; }
  template <typename T> static int from(const T&) { return -3; }
  friend bool operator==(const Anything& a, const Anything& b) { return a.id / 2 == b.id / 2; }
  friend bool operator!=(const Anything& a, const Anything& b) { return a.id / 2 != b.id / 2; }
};

inline char g_places[1 << 20];

template <> inline int raw_id<WideKey>(const WideKey& k) {
  long long v = static_cast<long long>(k);
  return v % 0x100000001ll ? -2 : static_cast<int>(v / 0x100000001ll);
}
template <> inline WideKey make_id<WideKey>(int id) { return static_cast<WideKey>(id * 0x100000001ll); }
template <> inline int raw_id<Hostile>(const Hostile& v) { v.check(); return static_cast<int>(v.id); }
template <> inline Hostile make_id<Hostile>(int id) { return Hostile(id); }
template <> inline int raw_id<Anything>(const Anything& v) { return v.arguments == 1 ? v.id : -2; }
template <> inline Anything make_id<Anything>(int id) { return Anything(id); }
template <> inline bool same_val<Anything>(int a, int b) { return a / 2 == b / 2; }
template <> inline int raw_id<const char*>(const char* const& k) { return static_cast<int>(k - g_places); }
template <> inline const char* make_id<const char*>(int id) { return g_places + id; }
template <> inline int raw_id<std::vector<int>>(const std::vector<int>& v) {
  if (v.empty()) return -2;
  if (v.size() != static_cast<std::size_t>(1 + v[0] % 7)) return -2;
  for (int x : v) if (x != v[0]) return -2;
  return v[0];
}
template <> inline std::vector<int> make_id<std::vector<int>>(int id) { return std::vector<int>(static_cast<std::size_t>(1 + id % 7), id); }
template <> inline int raw_id<double>(const double& v) { return v * 4 == std::floor(v * 4) ? static_cast<int>(v * 4) - 1 : -2; }
template <> inline double make_id<double>(int id) { return (id + 1) * 0.25; }

}  // namespace vp
#endif
