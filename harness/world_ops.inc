// Part of class World: the operations.

int pick_key(const Op& op, Slot& s) {
  // mostly any key, often one that is stored, sometimes the last-used one
  int mode = op.k % 10;
  int r = op.k / 10;
  if (mode < 4 || s.order.empty()) return r % universe;
  if (mode < 7) return to_raw(s, s.order[static_cast<std::size_t>(r) % s.order.size()].cls, r);
  if (mode == 7) return to_raw(s, s.order.front().cls, r);
  if (mode == 8) return to_raw(s, s.order.back().cls, r);
  if (s.last_cls >= 0) return to_raw(s, s.last_cls, r);
  return r % universe;
}
// some raw key of the class
int to_raw(Slot& s, int c, int r) {
  if (!s.fn.n) return c;
  return c + s.fn.n * (r % 3);
}

// ---------------------------------------------------------------- storing
void check_insert_result(Slot& s, typename C::InsertionResultType r, int stored, int raw, int val) {
  if (stored >= 0) {
    VP_CHK(r.was_inserted() == (stored == 1), "INSRES", "storing key %d reports was_inserted() == %d", raw, int(r.was_inserted()));
    VP_CHK(static_cast<bool>(r) == r.was_inserted() && r.first == r.was_inserted(), "INSRES", "insertion result is inconsistent");
  }
  if (stored == -2) {
    VP_CHK(!r.was_inserted(), "INSRES", "a cache of capacity zero claims to have stored key %d", raw);
    VP_CHK(r.iterator() == s.c->end(), "INSRES", "a cache of capacity zero returns an iterator to an entry");
    ev("zero_capacity_insertions");
    return;
  }
  auto it = r.iterator();
  VP_CHK(it != s.c->end(), "INSRES", "storing key %d returns the end iterator", raw);
  VP_CHK(cls(s, kid(it->first)) == cls(s, raw), "INSRES", "storing key %d returns an iterator to key %d", raw, kid(it->first));
  VP_CHK(vid(it->second) == val, "INSRES", "storing value %d for key %d returns an iterator to value %d", val, raw, vid(it->second));
  VP_CHK(r.second == it, "INSRES", "insertion result is inconsistent");
  check_address(s.order.back(), std::addressof(it->first), std::addressof(it->second));
}

void op_insert(const Op& op) {
  Slot& s = slot(op.s);
  if (!can_read(s)) return;
  int raw = pick_key(op, s);
  do_store(s, raw, next_value(s, raw, op.b), op.a % 8);
}
// a value that did not occur before, or the one that is stored already, or one next to it
int next_value(Slot& s, int raw, int mode) {
  if (has_default_value && set.similar_values && mode % 16 == 5) {
    ev("stores_of_default_values");
    return 0;
  }
  int j = find_ent(s, cls(s, raw));
  if (j < 0 || mode % 4 || !set.similar_values) return fresh_val();
  ev("stores_of_similar_values");
  return mode % 8 ? s.order[static_cast<std::size_t>(j)].val ^ 1 : s.order[static_cast<std::size_t>(j)].val;
}

void do_store(Slot& s, int raw, int val, int form) {
  C& c = *s.c;
  K key = mk(raw);
  V value = mv(val);
  using R = typename C::InsertionResultType;
  R r{false, c.end()};
  bool lvalue_key = true, lvalue_value = true;
  if (has_default_value && val == 0 && (seq & 1)) form = 6;
  switch (form) {
    case 0: r = c.insert(key, value); break;
    case 1: r = c.insert(mk(raw), mv(val)); break;
    case 2: r = c.emplace(key, value); break;
    case 3: r = c.emplace(std::move(key), std::move(value)); lvalue_key = lvalue_value = false; break;
    case 4: r = c.emplace(key, std::move(value)); lvalue_value = false; break;
    case 5: { const K& ck = key; const V& cv = value; r = c.emplace(ck, cv); break; }
    case 6: r = emplace_piecewise(c, raw, val); break;
    default: { const K& ck = key; r = c.emplace(ck, mv(val)); break; }
  }
  if (lvalue_key) VP_CHK(kid(key) == raw, "ARGS", "storing key %d modified the key passed as an lvalue", raw);
  if (lvalue_value) VP_CHK(vid(value) == val, "ARGS", "storing key %d modified the value passed as an lvalue", raw);
  int stored = m_store(s, raw, val);
  ++seq;
  if (stored != -2) s.last_seq = seq;
  out(static_cast<u64>(stored + 3));
  ev(form < 2 ? "inserts" : "emplaces");
  expect_no_callbacks();
  check_insert_result(s, r, stored, raw, val);
}

// Those of which a default-constructed one has the number zero.
static constexpr bool has_default_value = T::tval || std::is_same<V, int>::value;
static constexpr bool has_default_key = T::tkey || std::is_same<K, int>::value;
typename C::InsertionResultType emplace_piecewise(C& c, int raw, int val) {
  if constexpr (has_default_value) {
    if (val == 0) {
      count("piecewise_stores_of_nothing");
      if constexpr (has_default_key)
        if (raw == 0) return c.emplace(std::piecewise_construct, std::forward_as_tuple(), std::forward_as_tuple());
      return c.emplace(std::piecewise_construct, std::forward_as_tuple(mk(raw)), std::forward_as_tuple());
    }
  }
  if constexpr (has_default_key)
    if (raw == 0) return c.emplace(std::piecewise_construct, std::forward_as_tuple(), std::forward_as_tuple(mv(val)));
  if constexpr (T::tval && T::tkey) {
    return c.emplace(std::piecewise_construct, std::forward_as_tuple(raw / 1000, raw % 1000),
                     std::forward_as_tuple(val / 1000, val % 1000));
  } else if constexpr (T::tval) {
    return c.emplace(std::piecewise_construct, std::forward_as_tuple(mk(raw)),
                     std::forward_as_tuple(val / 1000, val % 1000));
  } else if constexpr (std::is_same<V, std::string>::value) {
    std::string text = "xx" + make_id<std::string>(val);
    return c.emplace(std::piecewise_construct, std::forward_as_tuple(mk(raw)),
                     std::forward_as_tuple(text, std::size_t(2), std::string::npos));
  } else {
    return c.emplace(std::piecewise_construct, std::forward_as_tuple(mk(raw)), std::forward_as_tuple(mv(val)));
  }
}

// ---------------------------------------------------------------- looking up
void op_lookup(const Op& op) {
  Slot& s = slot(op.s);
  if (!can_read(s)) return;
  int raw = pick_key(op, s);
  do_lookup(s, raw, op.a % 8, op.b % 5 == 0, op.b % 3 == 0);
}

// api: 0/1 contains (non-const/const), 2/3 find, 4/5 lookup, 6/7 []
void do_lookup(Slot& s, int raw, int api, bool write, bool hold) {
  C& c = *s.c;
  const C& cc = c;
  int k = cls(s, raw);
  int i = find_ent(s, k);
  bool stored = i >= 0;
  bool hit = stored && !expired(s, s.order[static_cast<std::size_t>(i)]);
  ++seq;
  bool was_last = s.last_cls == k && s.last_seq + 1 == seq;
  K key = mk(raw);
  log.clear();
  bool found = false;
  V* ref = nullptr;
  const V* cref = nullptr;
  const void* kaddr = nullptr;
  int error = 0;   // 1 KeyNotFound, 2 KeyExpired, 3 another runtime_error
  u64 hashes = g_hash_calls;
  UI ui;
  UCI uci;
  try {
    switch (api) {
      case 0: found = c.contains(key); break;
      case 1: found = cc.contains(key); break;
      case 2:
        ui = c.find(key);
        found = ui != c.end();
        if (found) { ref = std::addressof(ui->second); kaddr = std::addressof(ui->first); VP_CHK(cls(s, kid(ui->first)) == k, "RET", "find(%d) returned an iterator to key %d", raw, kid(ui->first)); }
        break;
      case 3:
        uci = cc.find(key);
        found = uci != cc.end();
        if (found) { cref = std::addressof(uci->second); kaddr = std::addressof(uci->first); VP_CHK(cls(s, kid(uci->first)) == k, "RET", "find(%d) const returned an iterator to key %d", raw, kid(uci->first)); }
        break;
      case 4: ref = std::addressof(c.lookup(key)); found = true; break;
      case 5: cref = std::addressof(cc.lookup(key)); found = true; break;
      case 6: ref = std::addressof(c[key]); found = true; break;
      default: cref = std::addressof(cc[key]); found = true; break;
    }
  } catch (const LRU::Error::KeyNotFound&) {
    error = 1;
  } catch (const LRU::Error::KeyExpired&) {
    error = 2;
  } catch (const std::runtime_error&) {
    error = 3;
  }
  hashes = g_hash_calls - hashes;
  static const char* const names[] = {"contains", "contains const", "find", "find const", "lookup", "lookup const", "[]", "[] const"};
  if (found != hit) {
    const char* kind = (T::timed && stored) ? "TTL" : "RET";
    VP_CHK(false, kind, "%s(%d) %s, but the key is %s", names[api], raw, found ? "found an entry" : "found nothing",
           hit ? "stored" : stored ? "expired" : "not stored");
  }
  if (!hit && api >= 4)
    VP_CHK(error == 1 || (stored && error == 2), "ERRTYPE", "%s(%d) threw the wrong exception (%d)", names[api], raw, error);
  if (error) VP_CHK(api >= 4, "RET", "%s(%d) threw", names[api], raw);
  int val = -1;
  if (hit) {
    Ent e = s.order[static_cast<std::size_t>(i)];
    val = e.val;
    if (!cref) cref = ref;
    if (cref) VP_CHK(vid(*cref) == e.val, "VAL", "%s(%d) gave value %d, the last stored one is %d", names[api], raw, vid(*cref), e.val);
    to_front(s, i);
    if (cref) {
      Ent& f = s.order.back();
      if (!kaddr && f.kaddr) kaddr = f.kaddr;
      if (kaddr) check_address(f, kaddr, cref);
    }
    if (T::fn && was_last && (api < 2 || api >= 4)) {
      VP_CHK(hashes == 0, "NOHASH", "%s of the key last stored or found computed %llu hashes", names[api], (unsigned long long)hashes);
      ev("repeated_lookups");
    }
    s.last_cls = k;
    s.last_seq = seq;
    ev("hits");
  } else {
    ev(stored ? "expired_lookups" : "misses");
  }
  out(static_cast<u64>(hit) * 8 + static_cast<u64>(api));
  expect_access(s, raw, hit, val);
  if (hit && ref && write) {
    int nv = fresh_val();
    *ref = mv(nv);
    s.order.back().val = nv;
    ev("writes_through_references");
  }
  (void)hold;
}

// ---------------------------------------------------------------- erasing
void op_erase_key(const Op& op) {
  Slot& s = slot(op.s);
  if (!can_read(s)) return;
  int raw = pick_key(op, s);
  int i = find_ent(s, cls(s, raw));
  bool r = s.c->erase(mk(raw));
  VP_CHK(r == (i >= 0), "ERASERES", "erase(%d) returned %d, the key is %s", raw, int(r), i >= 0 ? "stored" : "not stored");
  expect_no_callbacks();
  out(r);
  if (i >= 0) {
    if (expired(s, s.order[static_cast<std::size_t>(i)])) ev("expired_erasures");
    m_remove(s, i);
    ev("erasures");
  } else {
    ev("failed_erasures");
  }
}

UI uiter_at(Slot& s, int i) {
  // an unordered iterator to the i-th entry without a lookup
  for (auto it = s.c->unordered_begin(); it != s.c->unordered_end(); ++it)
    if (cls(s, kid(it->first)) == s.order[static_cast<std::size_t>(i)].cls) return it;
  fail("CONTENT", strf("unordered iteration does not reach key %d", s.order[static_cast<std::size_t>(i)].cls));
}
UCI ucit_at(Slot& s, int i) {
  const C& c = *s.c;
  for (auto it = c.unordered_begin(); it != c.unordered_end(); it++)
    if (cls(s, kid(it->first)) == s.order[static_cast<std::size_t>(i)].cls) return it;
  fail("CONTENT", strf("unordered iteration does not reach key %d", s.order[static_cast<std::size_t>(i)].cls));
}
OI oiter_at(Slot& s, int i) {
  auto it = s.c->ordered_begin();
  for (int j = 0; j < i; ++j) {
    VP_CHK(it != s.c->ordered_end(), "CONTENT", "ordered iteration is too short");
    ++it;
  }
  VP_CHK(it != s.c->ordered_end(), "CONTENT", "ordered iteration is too short");
  return it;
}

void op_erase_uit(const Op& op) {
  Slot& s = slot(op.s);
  if (!can_read(s) || s.order.empty()) return;
  int i = static_cast<int>(static_cast<std::size_t>(op.k) % s.order.size());
  if (expired(s, s.order[static_cast<std::size_t>(i)])) ev("expired_erasures");
  switch (op.a % 3) {
    case 0: s.c->erase(uiter_at(s, i)); break;
    case 1: s.c->erase(ucit_at(s, i)); break;
    default: { UCI it = uiter_at(s, i); (void)it->second; s.c->erase(it); break; }
  }
  expect_no_callbacks();
  m_remove(s, i);
  ev("erasures");
  ev("iterator_erasures");
}
void op_erase_oit(const Op& op) {
  Slot& s = slot(op.s);
  if (!can_read(s) || s.order.empty()) return;
  int i = static_cast<int>(static_cast<std::size_t>(op.k) % s.order.size());
  if (expired(s, s.order[static_cast<std::size_t>(i)])) ev("expired_erasures");
  switch (op.a % 4) {
    case 0: s.c->erase(oiter_at(s, i)); break;
    case 1: { OCI it = oiter_at(s, i); s.c->erase(it); break; }
    case 2: { auto it = oiter_at(s, i); (void)it->second; s.c->erase(it); break; }
    default: { OI it(uiter_at(s, i)); s.c->erase(it); break; }
  }
  expect_no_callbacks();
  m_remove(s, i);
  ev("erasures");
  ev("iterator_erasures");
}

void op_clear(const Op& op) {
  Slot& s = slot(op.s);
  if (!can_read(s)) return;
  if (op.a & 1) s.c->shrink(0); else s.c->clear();
  s.order.clear();
  s.last_cls = -1;
  ev("clears");
}
void m_trim(Slot& s, std::size_t n) {
  while (s.order.size() > n) { m_remove(s, 0); ev("trimmed_entries"); }
}
void op_shrink(const Op& op) {
  Slot& s = slot(op.s);
  if (!can_read(s)) return;
  std::size_t n = op.b % 16 == 0 ? huge(op.a) : static_cast<std::size_t>(op.a) % (s.order.size() + 3);
  s.c->shrink(n);
  m_trim(s, n);
  ev("shrinks");
}
void op_capacity(const Op& op) {
  Slot& s = slot(op.s);
  if (!can_read(s)) return;
  std::size_t n = op.b % 4 == 0 ? static_cast<std::size_t>(op.a) % (s.order.size() + 2) : draw_cap(op.a);
  s.c->capacity(n);
  s.cap = n;
  m_trim(s, s.cap);
  ev("capacity_changes");
}
std::size_t draw_cap(int r) {
  int span = cap_hi - cap_lo + 1;
  if (r % 29 == 0) return 0;
  if (r % 89 == 1) return huge(r / 89);
  return static_cast<std::size_t>(cap_lo + (r / 29) % span);
}
// sizes at which narrower or signed types end
std::size_t huge(int r) {
  static const std::size_t sizes[] = {~std::size_t(0), ~std::size_t(0) - 1, ~std::size_t(0) / 2, ~std::size_t(0) / 2 + 1, std::size_t(1) << 32,
                                      (std::size_t(1) << 32) - 1, (std::size_t(1) << 32) + 2, std::size_t(1) << 31, (std::size_t(1) << 31) - 1,
                                      65536, 65535, 32768, 256, 255, 128};
  ev("huge_sizes");
  return sizes[static_cast<std::size_t>(r) % (sizeof sizes / sizeof *sizes)];
}

// ---------------------------------------------------------------- bulk
struct Source {
  std::vector<std::pair<int, int>> ids;
};
Source make_source(int seed, int n, Slot& s) {
  Rng r(static_cast<u64>(seed) + 77);
  Source src;
  for (int i = 0; i < n; ++i) {
    int raw = r.below(universe);
    if (i && r.chance(1, 5)) raw = src.ids[static_cast<std::size_t>(r.below(i))].first;
    src.ids.emplace_back(to_raw(s, cls(s, raw), r.below(3)), next_value(s, raw, r.below(16)));
  }
  return src;
}
Pairs to_pairs(const Source& src) {
  Pairs p;
  for (auto& x : src.ids) p.emplace_back(mk(x.first), mv(x.second));
  return p;
}
void check_source(const Pairs& p, const Source& src) {
  VP_CHK(p.size() == src.ids.size(), "ARGS", "the source range was modified");
  for (std::size_t i = 0; i < p.size(); ++i)
    VP_CHK(kid(p[i].first) == src.ids[i].first && vid(p[i].second) == src.ids[i].second, "ARGS",
           "element %zu of an lvalue source was modified (key %d value %d, was %d %d)", i, kid(p[i].first),
           vid(p[i].second), src.ids[i].first, src.ids[i].second);
}
// m_store for every pair; number of new keys, or -1 if that is unspecified
int m_bulk(Slot& s, const Source& src) {
  int n = 0;
  bool unknown = false;
  for (auto& x : src.ids) {
    int r = m_store(s, x.first, x.second);
    if (r == 1) ++n;
    if (r == -1) unknown = true;
  }
  return unknown ? -1 : n;
}
using IL = typename C::InitializerList;
std::pair<K, V> pr(const Source& src, std::size_t i) { return {mk(src.ids[i].first), mv(src.ids[i].second)}; }

template <typename F>
void with_list(const Source& src, F f) {
  switch (src.ids.size()) {
    case 0: f(IL{}); break;
    case 1: f(IL{pr(src, 0)}); break;
    case 2: f(IL{pr(src, 0), pr(src, 1)}); break;
    case 3: f(IL{pr(src, 0), pr(src, 1), pr(src, 2)}); break;
    case 4: f(IL{pr(src, 0), pr(src, 1), pr(src, 2), pr(src, 3)}); break;
    default: f(IL{pr(src, 0), pr(src, 1), pr(src, 2), pr(src, 3), pr(src, 4)}); break;
  }
}

void unordered_source(Slot& o, Source& src) {
  const C& oc = *o.c;
  src.ids.clear();
  for (auto it = oc.begin(); it != oc.end() && src.ids.size() <= o.order.size(); ++it) src.ids.emplace_back(kid(it->first), vid(it->second));
  VP_CHK(src.ids.size() == o.order.size(), "CONTENT", "unordered iteration yields %zu entries, %zu are stored", src.ids.size(), o.order.size());
}

// Pairs that can be read only once, as from a stream.
struct Once {
  using iterator_category = std::input_iterator_tag;
  using value_type = std::pair<K, V>;
  using difference_type = std::ptrdiff_t;
  using pointer = const value_type*;
  using reference = const value_type&;
  const Pairs* pairs = nullptr;
  std::size_t* at = nullptr;   // shared by all copies; null: past the end
  reference operator*() const { return (*pairs)[*at]; }
  pointer operator->() const { return &(*pairs)[*at]; }
  Once& operator++() { ++*at; return *this; }
  Once operator++(int) { Once old = *this; ++*at; return old; }
  bool ended() const { return !at || *at >= pairs->size(); }
  bool operator==(const Once& o) const { return ended() == o.ended(); }
  bool operator!=(const Once& o) const { return !(*this == o); }
};

void op_bulk_insert(const Op& op) {
  Slot& s = slot(op.s);
  if (!can_read(s)) return;
  C& c = *s.c;
  int form = op.b % 16;
  Source src = make_source(op.k, form == 4 ? op.a % 6 : op.a % (2 * cap_hi + 3), s);
  std::size_t n = 0;
  if (form == 8) {
    // the entries of another cache, oldest first
    Slot& o = slots[static_cast<std::size_t>(op.s2) % slots.size()];
    if (&o == &s || !can_read(o)) return;
    src.ids.clear();
    for (auto& e : o.order) src.ids.emplace_back(-1, e.val);
    std::size_t i = 0;
    const C& oc = *o.c;
    for (auto it = oc.ordered_begin(); it != oc.ordered_end() && i < src.ids.size(); ++it, ++i) src.ids[i].first = kid(it->first);
    VP_CHK(i == src.ids.size(), "CONTENT", "ordered iteration has another length than the cache");
    if (op.a & 1) n = c.insert(o.c->ordered_begin(), o.c->ordered_end());
    else n = c.insert(oc.ordered_begin(), oc.ordered_end());
  } else if (form == 9) {
    // the entries of another cache, in the order of its unordered iterators
    Slot& o = slots[static_cast<std::size_t>(op.s2) % slots.size()];
    if (&o == &s || !can_read(o)) return;
    C& other = *o.c;
    unordered_source(o, src);
    switch (op.a % 4) {
      case 0: n = c.insert(other.begin(), other.end()); break;
      case 1: n = c.insert(other.cbegin(), other.cend()); break;
      case 2: n = c.insert(other); break;
      default: { const C& oc = other; n = c.insert(oc); break; }
    }
  } else if (form == 13 || form == 14) {
    std::unordered_map<K, V> m;
    for (auto& x : src.ids) m.emplace(mk(x.first), mv(x.second));
    src.ids.clear();
    for (auto& x : m) src.ids.emplace_back(kid(x.first), vid(x.second));
    if (form == 13) { n = c.insert(m); Pairs back(m.begin(), m.end()); check_source(back, src); }
    else n = c.insert(std::move(m));
  } else {
    Pairs p = to_pairs(src);
    switch (form) {
      case 0: n = c.insert(p); check_source(p, src); break;
      case 1: { const Pairs& cp = p; n = c.insert(cp); check_source(p, src); break; }
      case 2: n = c.insert(p.begin(), p.end()); check_source(p, src); break;
      case 3: n = c.insert(std::move(p)); break;
      case 4: with_list(src, [&](IL l) { n = c.insert(l); }); break;
      case 5: { std::list<std::pair<K, V>> l(p.begin(), p.end()); n = c.insert(l.cbegin(), l.cend()); break; }
      case 6: { std::list<std::pair<K, V>> l(p.begin(), p.end()); n = c.insert(std::move(l)); break; }
      case 15: { std::size_t at = 0; n = c.insert(Once{&p, &at}, Once{}); check_source(p, src); break; }
      case 10: { std::forward_list<std::pair<K, V>> l(p.begin(), p.end()); n = c.insert(l); Pairs back(l.begin(), l.end()); check_source(back, src); break; }
      case 11: { std::deque<std::pair<const K, V>> d(p.begin(), p.end()); if (op.a & 1) { n = c.insert(std::move(d)); } else { n = c.insert(d); Pairs back(d.begin(), d.end()); check_source(back, src); } break; }
      case 12: { Pairs back(p.rbegin(), p.rend()); n = c.insert(back.rbegin(), back.rend()); Pairs again(back.rbegin(), back.rend()); check_source(again, src); break; }
      default: { const auto* b = p.data(); n = c.insert(b, b + p.size()); check_source(p, src); break; }
    }
  }
  int want = m_bulk(s, src);
  expect_no_callbacks();
  if (want >= 0) VP_CHK(n == static_cast<std::size_t>(want), "BULKRES", "bulk insertion returned %zu, %d keys were new", n, want);
  ev("bulk_insertions");
  count("bulk_pairs", src.ids.size());
}

void op_bulk_assign(const Op& op) {
  Slot& s = slot(op.s);
  if (!s.c) return;
  if (s.limbo) return;
  C& c = *s.c;
  int form = op.b % 8;
  Source src = make_source(op.k, form == 3 ? op.a % 6 : op.a % (2 * cap_hi + 3), s);
  Pairs p = to_pairs(src);
  C* self = nullptr;
  switch (form) {
    case 0: self = static_cast<C*>(&(c = p)); check_source(p, src); break;
    case 1: { const Pairs& cp = p; self = static_cast<C*>(&(c = cp)); check_source(p, src); break; }
    case 2: self = static_cast<C*>(&(c = std::move(p))); break;
    case 3: with_list(src, [&](IL l) { self = static_cast<C*>(&(c = l)); }); break;
    case 6: { std::forward_list<std::pair<K, V>> l(p.begin(), p.end()); self = static_cast<C*>(&(c = l)); Pairs back(l.begin(), l.end()); check_source(back, src); break; }
    case 7: { std::deque<std::pair<const K, V>> d(p.begin(), p.end()); self = static_cast<C*>(&(c = std::move(d))); break; }
    case 4: { std::list<std::pair<K, V>> l(p.begin(), p.end()); self = static_cast<C*>(&(c = l)); Pairs back(l.begin(), l.end()); check_source(back, src); break; }
    default: { std::list<std::pair<K, V>> l(p.begin(), p.end()); self = static_cast<C*>(&(c = std::move(l))); break; }
  }
  VP_CHK(self == &c, "BULKRES", "range assignment returns another cache");
  s.order.clear();
  s.last_cls = -1;
  s.cap = std::max(s.cap, src.ids.size());
  m_bulk(s, src);
  expect_no_callbacks();
  ev("range_assignments");
  count("bulk_pairs", src.ids.size());
}

i64 draw_ttl(int r) {
  static const i64 ms[] = {1, 2, 5, 10, 50, 1000, 60000, 0, 3600000, 5, 10};
  i64 t = ms[r % 11] * 1000000;
  if (r % 11 == 9) {
    // as long as a clock can count, a hundred years, a month
    static const i64 huge[] = {INT64_MAX / 1000000 * 1000000, 3155760000000000000ll, 2678400000000000ll};
    t = huge[(r / 11) % 3];
  }
  if (r % 11 == 10 && T::tick == 1) {
    static const i64 odd[] = {1500000, 123457, 1, 999999, 1000001, 333333333};
    t = odd[(r / 11) % 6];
  }
  if (T::tick > 1000000) t = (r % 5) * T::tick;
  return t;
}
FnCfg draw_fn(int r) {
  FnCfg f;
  if constexpr (T::fn) {
    f.tag = 1 + r % 1000;
    f.mode = (r / 1000) % 4;
    if (f.mode == 3) f.mode = 0;
    if ((r / 4000) % 12 == 1) { mod_used = true; return default_fn(); }
    if ((r / 4000) % 3 == 0) { f.n = 2 + (r / 12000) % 9; mod_used = true; }
  }
  return f;
}

// Time to live argument in different duration types.
template <typename F>
void with_ttl(i64 ns, int r, F f) {
  if constexpr (T::timed) {
    if (r % 3 == 0 && ns % 1000000 == 0) f(std::chrono::milliseconds(ns / 1000000));
    else if (r % 3 == 1 && ns % 1000000000 == 0) f(std::chrono::seconds(ns / 1000000000));
    else if (T::tick > 1 && r % 2 && ns < INT64_MAX / 2) f(std::chrono::nanoseconds(ns + r % T::tick));   // rounded down
    else f(std::chrono::duration_cast<typename T::Duration>(std::chrono::nanoseconds(ns)));
  } else {
    f(0);
  }
}

void remember(Slot& s, C* fresh, std::size_t cap, i64 ttl, const FnCfg& fn) {
  s.c.reset();
  s.c.reset(fresh);
  s.order.clear();
  s.cap = cap;
  s.ttl = ttl;
  s.fn = fn;
  s.st.reset();
  for (auto& v : s.cbs) v.clear();
  s.limbo = false;
  s.last_cls = -1;
}

// Constructs an empty cache with the capacity.
C* make_empty(std::size_t cap, i64 ttl, const FnCfg& fn, int r) {
  C* fresh = nullptr;
  bool plain = (!T::fn || fn.tag == 0) && (r & 1);   // default-constructed function objects
  if constexpr (T::timed) {
    with_ttl(ttl, r, [&](auto d) {
      if (plain && (r & 2)) fresh = new C(d, cap, T::hash(fn));
      else if (plain) fresh = new C(d, cap);
      else fresh = new C(d, cap, T::hash(fn), T::eq(fn));
    });
  } else {
    if (plain && (r & 2)) fresh = new C(cap, T::hash(fn));
    else if (plain) fresh = new C(cap);
    else fresh = new C(cap, T::hash(fn), T::eq(fn));
  }
  return fresh;
}

void op_recreate(const Op& op) {
  Slot& s = slot(op.s);
  FnCfg fn = draw_fn(op.v);
  i64 ttl = draw_ttl(op.b);
  std::size_t cap = draw_cap(op.a);
  drop_handles(slot_index(s), false);
  if (op.c % 9 == 0) {
    // default capacity and function objects
    if (T::fn) mod_used = true;
    if constexpr (T::timed) {
      with_ttl(ttl, op.k, [&](auto d) { remember(s, new C(d), 128, ttl, T::fn ? default_fn() : FnCfg()); });
    } else {
      remember(s, new C(), 128, ttl, T::fn ? default_fn() : FnCfg());
    }
  } else {
    remember(s, make_empty(cap, ttl, fn, op.k), cap, ttl, fn);
  }
  ev("constructions");
}

void op_bulk_construct(const Op& op) {
  Slot& s = slot(op.s);
  FnCfg fn = draw_fn(op.v);
  i64 ttl = draw_ttl(op.c);
  std::size_t cap = draw_cap(op.v / 7);
  int form = op.b % 19;
  drop_handles(slot_index(s), false);
  Slot tmp;
  tmp.fn = fn;
  bool list = form == 8 || form == 9;
  int n = list ? op.a % 6 : op.a % 97 == 0 ? 128 + op.a % 40 : op.a % (2 * cap_hi + 3);
  Source src = make_source(op.k, n, tmp);
  if (n > 128) {   // more different keys than the usual universe
    Rng r(static_cast<u64>(op.k));
    for (auto& x : src.ids) x.first = r.below(3 * n);
  }
  Slot& o = slots[static_cast<std::size_t>(op.s2) % slots.size()];
  if (form == 15 || form == 16) {
    // from the entries of another cache
    if (&o == &s || !can_read(o)) form = 3;
    else if (form == 15) unordered_source(o, src);
    else {
      src.ids.clear();
      const C& oc = *o.c;
      for (auto it = oc.ordered_begin(); it != oc.ordered_end() && src.ids.size() <= o.order.size(); ++it) src.ids.emplace_back(kid(it->first), vid(it->second));
      VP_CHK(src.ids.size() == o.order.size(), "CONTENT", "ordered iteration yields %zu entries, %zu are stored", src.ids.size(), o.order.size());
    }
  }
  Pairs p = to_pairs(src);
  std::list<std::pair<K, V>> l;
  if (form == 10 || form == 11) l.assign(p.begin(), p.end());
  C* fresh = nullptr;
  auto h = T::hash(fn);
  auto e = T::eq(fn);
  std::size_t len = src.ids.size();
  std::size_t want = cap;
  auto build = [&](auto... d) {
    switch (form) {
      case 0: fresh = new C(d..., cap, p, h, e); check_source(p, src); break;
      case 1: { const Pairs& cp = p; fresh = new C(d..., cap, cp, h, e); check_source(p, src); break; }
      case 2: fresh = new C(d..., cap, std::move(p), h, e); break;
      case 3: fresh = new C(d..., cap, p.begin(), p.end(), h, e); check_source(p, src); break;
      case 4: fresh = new C(d..., p.cbegin(), p.cend(), h, e); want = std::max<std::size_t>(len, 128); check_source(p, src); break;
      case 5: fresh = new C(d..., p, h, e); want = std::max<std::size_t>(len, 128); check_source(p, src); break;
      case 6: { const Pairs& cp = p; fresh = new C(d..., cp, h, e); want = std::max<std::size_t>(len, 128); check_source(p, src); break; }
      case 7: fresh = new C(d..., std::move(p), h, e); want = len; break;
      case 8: with_list(src, [&](IL il) { fresh = new C(d..., il, h, e); }); want = len; break;
      case 9: with_list(src, [&](IL il) { fresh = new C(d..., cap, il, h, e); }); break;
      case 12: { std::forward_list<std::pair<K, V>> f(p.begin(), p.end()); fresh = new C(d..., f, h, e); want = std::max<std::size_t>(len, 128); Pairs back(f.begin(), f.end()); check_source(back, src); break; }
      case 13: { std::deque<std::pair<const K, V>> q(p.begin(), p.end()); fresh = new C(d..., std::move(q), h, e); want = len; break; }
      case 14: { Pairs back(p.rbegin(), p.rend()); fresh = new C(d..., cap, back.rbegin(), back.rend(), h, e); break; }
      case 17: { std::size_t at = 0; fresh = new C(d..., cap, Once{&p, &at}, Once{}, h, e); check_source(p, src); break; }
      case 18: { std::size_t at = 0; fresh = new C(d..., Once{&p, &at}, Once{}, h, e); want = std::max<std::size_t>(len, 128); check_source(p, src); break; }
      case 15: fresh = new C(d..., cap, o.c->begin(), o.c->end(), h, e); break;
      case 16: fresh = new C(d..., o.c->ordered_begin(), o.c->ordered_end(), h, e); want = std::max<std::size_t>(len, 128); break;
      case 10: fresh = new C(d..., l.begin(), l.end(), h, e); want = std::max<std::size_t>(len, 128); break;
      default: fresh = new C(d..., std::move(l), h, e); want = len; break;
    }
  };
  if constexpr (T::timed) build(std::chrono::duration_cast<typename T::Duration>(std::chrono::nanoseconds(ttl)));
  else build();
  remember(s, fresh, want, ttl, fn);
  VP_CHK(fresh->capacity() == want, "BULKCAP", "construction form %d from %zu pairs gives capacity %zu instead of %zu", form, len, fresh->capacity(), want);
  m_bulk(s, src);
  expect_no_callbacks();
  ev("bulk_constructions");
  count("bulk_pairs", len);
}

// ---------------------------------------------------------------- copies and moves
void m_copy(Slot& to, const Slot& from) {
  to.order = from.order;
  for (auto& e : to.order) {
    e.eid = next_eid++;
    e.kaddr = e.vaddr = nullptr;
  }
  to.cap = from.cap;
  to.ttl = from.ttl;
  to.fn = from.fn;
  to.st = from.st;
  for (int i = 0; i < 3; ++i) to.cbs[i] = from.cbs[i];
  to.cb_calls = from.cb_calls;
  to.limbo = false;
  to.last_cls = from.last_cls;
}
static C by_value(C c) { return c; }

void check_copied(Slot& a, Slot& b) {
  if (&a == &b || a.fn.n) return;
  VP_CHK(*a.c == *b.c, "COPYEQ", "a copied cache does not compare equal to its source");
  VP_CHK(!(*b.c != *a.c), "COPYEQ", "the source of a copied cache compares unequal to it");
}

void op_copy_ctor(const Op& op) {
  Slot& a = slot(op.s);
  Slot& b = slot(op.s2);
  if (&a == &b || !can_read(a)) return;
  drop_handles(slot_index(b), false);
  const C& ca = *a.c;
  C* fresh = nullptr;
  switch (op.a % 6) {
    case 0: fresh = new C(ca); break;
    case 1: fresh = new C(*a.c); break;
    case 2: { C c = ca; fresh = new C(c); break; }          // a copy of a copy
    case 3: { C c{*a.c}; fresh = new C(c); break; }
    case 4: { C c = *a.c; const C& cc = c; fresh = new C(cc); break; }
    default: fresh = new C{ca}; break;
  }
  b.c.reset();
  b.c.reset(fresh);
  m_copy(b, a);
  expect_no_callbacks();
  check_copied(a, b);
  if (op.b % 5 == 0) {
    // destroying the source must not affect the copy
    drop_handles(slot_index(a), false);
    a.c.reset();
    a.order.clear();
    FnCfg fn = a.fn;
    remember(a, make_empty(a.cap, a.ttl, fn, op.k), a.cap, a.ttl, fn);
    ev("sources_destroyed");
  }
  ev("copies");
}
void op_copy_assign(const Op& op) {
  Slot& a = slot(op.s);
  Slot& b = slot(op.s2);
  if (!can_read(a) || !b.c) return;
  const C& ca = *a.c;
  C* self;
  if (&a == &b) {
    C& same = *a.c;
    if (op.a & 1) self = static_cast<C*>(&(*a.c = ca));
    else self = static_cast<C*>(&(*a.c = same));
    ev("self_assignments");
  } else {
    drop_handles(slot_index(b), false);
    if (op.a & 1) self = static_cast<C*>(&(*b.c = ca));
    else self = static_cast<C*>(&(*b.c = *a.c));
    m_copy(b, a);
    check_copied(a, b);
    ev("copy_assignments");
  }
  VP_CHK(self == b.c.get(), "COPYEQ", "copy assignment returns another cache");
  expect_no_callbacks();
}
// contents of `from` go to `to` (whose cache object is given); from is left in limbo
void m_move(Slot& to, Slot& from) {
  int i = slot_index(from), j = slot_index(to);
  drop_handles(j, false);
  drop_handles(i, true);
  for (auto& h : handles)
    if (h.slot == i) h.slot = j;
  to.order = from.order;
  to.cap = from.cap;
  to.ttl = from.ttl;
  to.fn = from.fn;
  to.last_cls = from.last_cls;
  to.limbo = false;
  from.order.clear();
  from.limbo = true;
  from.last_cls = -1;
}
// which statistics and callbacks follow a move or swap is not specified
void reattach(Slot& s) {
  const auto held = held_stats(s);
  s.c->stop_monitoring();
  s.c->clear_all_callbacks();
  s.cb_calls.clear();
  if (s.st) s.c->monitor(s.st->obj());
  for (int kind = 0; kind < 3; ++kind)
    for (int id : s.cbs[kind]) register_callback(*s.c, kind, id);
}
void detach(Slot& s) {
  s.st.reset();
  for (auto& v : s.cbs) v.clear();
}
void maybe_reset(Slot& s, int r) {
  // bring a moved-from cache back at once, or leave that for later
  if (r % 3 == 0) return;
  do_reset(s, r);
}
void do_reset(Slot& s, int r) {
  if (!s.c || !s.limbo) return;
  C& c = *s.c;
  std::size_t cap = draw_cap(r);
  // in a valid state, whatever it is
  VP_CHK(c.size() <= c.capacity(), "MOVE", "a moved-from cache has %zu entries and capacity %zu", c.size(), c.capacity());
  VP_CHK(c.is_empty() == (c.size() == 0), "MOVE", "is_empty() of a moved-from cache disagrees with size()");
  c.clear();
  c.capacity(cap);
  c.stop_monitoring();
  c.clear_all_callbacks();
  detach(s);
  s.order.clear();
  s.cap = cap;
  s.limbo = false;
  s.last_cls = -1;
  if constexpr (T::fn) {
    s.fn = c.hash_function().c;
    if (s.fn.n) mod_used = true;
    FnCfg q = c.key_equal().c;
    VP_CHK(q.n == s.fn.n && q.tag == s.fn.tag, "FN", "hash and equality of a moved-from cache do not match");
  }
  if constexpr (T::timed) {
    // the time to live of a moved-from cache is not specified: start over
    FnCfg fn = draw_fn(r);
    i64 ttl = draw_ttl(r);
    if (r % 2) {
      C other = make_value(cap, ttl, fn, r);
      if (r % 4 == 1) c = other; else c = std::move(other);
    } else {
      remember(s, make_empty(cap, ttl, fn, r), cap, ttl, fn);
    }
    s.cap = cap;
    s.ttl = ttl;
    s.fn = fn;
  } else if (r % 7 == 1) {
    FnCfg fn = draw_fn(r);
    C other(cap, T::hash(fn), T::eq(fn));
    if (r % 14 == 1) c = other; else c = std::move(other);
    s.fn = fn;
  }
  ev("moved_from_reused");
}
C make_value(std::size_t cap, i64 ttl, const FnCfg& fn, int r) {
  std::unique_ptr<C> p(make_empty(cap, ttl, fn, r));
  return C(*p);
}
void op_reset(const Op& op) {
  Slot& s = slot(op.s);
  do_reset(s, op.k);
}
void op_move_ctor(const Op& op) {
  Slot& a = slot(op.s);
  Slot& b = slot(op.s2);
  if (&a == &b || !can_read(a)) return;
  u64 c0 = g_tracked[1].copies + g_tracked[1].copy_assigns, d0 = g_tracked[1].dtors, m0 = g_tracked[1].moves + g_tracked[1].move_assigns;
  C* fresh;
  if (op.a % 3 == 0) fresh = new C(std::move(*a.c));
  else if (op.a % 3 == 1) { C c = std::move(*a.c); fresh = new C(std::move(c)); }
  else { C c{std::move(*a.c)}; fresh = new C(static_cast<C&&>(c)); }
  if (T::tval)
    VP_CHK(g_tracked[1].copies + g_tracked[1].copy_assigns == c0 && g_tracked[1].dtors == d0 && g_tracked[1].moves + g_tracked[1].move_assigns == m0, "MOVE", "move construction copied, moved or destroyed values");
  m_move_into(b, a, fresh);
  ev("moves");
  maybe_reset(a, op.v);
}
std::shared_ptr<Stats> held_stats(Slot& s) { return s.st ? s.st->obj() : nullptr; }
void m_move_into(Slot& b, Slot& a, C* fresh) {
  const auto held = held_stats(b);
  b.c.reset();
  b.c.reset(fresh);
  m_move(b, a);
  if (next_cb % 2) detach(b);
  detach(a);
  reattach(b);
  expect_no_callbacks();
}
void op_move_assign(const Op& op) {
  Slot& a = slot(op.s);
  Slot& b = slot(op.s2);
  if (&a == &b || !can_read(a) || !b.c) return;
  u64 c0 = g_tracked[1].copies + g_tracked[1].copy_assigns, m0 = g_tracked[1].moves + g_tracked[1].move_assigns;
  const auto held = held_stats(b);
  C* self = static_cast<C*>(&(*b.c = std::move(*a.c)));
  VP_CHK(self == b.c.get(), "MOVE", "move assignment returns another cache");
  if (T::tval)
    VP_CHK(g_tracked[1].copies + g_tracked[1].copy_assigns == c0 && g_tracked[1].moves + g_tracked[1].move_assigns == m0, "MOVE", "move assignment copied or moved values");
  m_move(b, a);
  if (op.b % 2) detach(b);
  detach(a);
  reattach(b);
  expect_no_callbacks();
  ev("moves");
  maybe_reset(a, op.v);
}
void op_swap(const Op& op) {
  Slot& a = slot(op.s);
  Slot& b = slot(op.s2);
  if (!a.c || !b.c) return;
  const auto held_a = held_stats(a), held_b = held_stats(b);
  u64 c0 = g_tracked[1].copies + g_tracked[1].copy_assigns, d0 = g_tracked[1].dtors, m0 = g_tracked[1].moves + g_tracked[1].move_assigns;
  switch (op.a % 3) {
    case 0: a.c->swap(*b.c); break;
    case 1: { using std::swap; swap(*a.c, *b.c); break; }
    default: if (&a != &b) std::swap(*a.c, *b.c); else swap(*a.c, *b.c); break;
  }
  if (T::tval)
    VP_CHK(g_tracked[1].copies + g_tracked[1].copy_assigns == c0 && g_tracked[1].dtors == d0 && g_tracked[1].moves + g_tracked[1].move_assigns == m0, "MOVE", "swap copied, moved or destroyed values");
  if (&a != &b) {
    int i = slot_index(a), j = slot_index(b);
    remap_handles_after_swap(i, j);
    std::swap(a.order, b.order);
    std::swap(a.cap, b.cap);
    std::swap(a.ttl, b.ttl);
    std::swap(a.fn, b.fn);
    std::swap(a.last_cls, b.last_cls);
    std::swap(a.limbo, b.limbo);
  }
  if (op.b % 2) {
    detach(a);
    detach(b);
  }
  reattach(a);
  reattach(b);
  expect_no_callbacks();
  ev("swaps");
}

// ---------------------------------------------------------------- iterating
// an iterator denotes one entry of one cache, whatever it denoted before
template <typename It>
void check_bound(Slot& s, It it, int j, const char* what) {
  Ent& e = s.order[static_cast<std::size_t>(j)];
  check_entry(s, it, e, "ITER", what);
  It fresh(it);
  bool dead = expired(s, e), threw = false;
  try {
    const K& key = fresh.key();
    VP_CHK(cls(s, kid(key)) == e.cls && vid(fresh.value()) == e.val && vid(fresh.entry().second) == e.val, "ITER", "key(), value() or entry() of %s is wrong", what);
  } catch (const LRU::Error::KeyExpired&) {
    threw = true;
  }
  VP_CHK(threw == dead, "ITER", "key() of %s to %s entry %s", what, dead ? "an expired" : "a live", threw ? "threw KeyExpired" : "did not throw");
  VP_CHK(s.c->is_valid(it) == !dead, "ITER", "is_valid() of %s is wrong", what);
  if (!dead) VP_CHK(cls(s, kid(it.key())) == e.cls && vid(it.value()) == e.val, "ITER", "key() or value() of %s is wrong", what);
}
void iterators_of_two(Slot& s, int p, Slot& o, int q, int b) {
  {
    OI x = oiter_at(s, p), y = oiter_at(o, q);
    if (b & 1) (void)x->second;
    if (b & 2) (void)y->second;
    if (b & 16) x.swap(y); else { using std::swap; swap(x, y); }
    check_bound(o, x, q, "an ordered iterator swapped from another cache");
    check_bound(s, y, p, "an ordered iterator swapped from another cache");
    VP_CHK(x != y && x != OI(uiter_at(s, p)), "ITER", "iterators of two caches are equal");
    x = y;
    check_bound(s, x, p, "an ordered iterator assigned from another cache");
    x = oiter_at(o, q);
    check_bound(o, x, q, "an ordered iterator assigned from another cache");
    OCI cx = y;
    if (b & 4) (void)cx->second;
    cx = x;
    check_bound(o, cx, q, "an ordered const iterator assigned from another cache");
    VP_CHK(cx == uiter_at(o, q), "ITER", "ordered and unordered iterator to one entry differ");
  }
  {
    UI x = uiter_at(s, p), y = uiter_at(o, q);
    if (b & 1) (void)x->second;
    if (b & 2) (void)y->second;
    if (b & 16) x.swap(y); else { using std::swap; swap(x, y); }
    check_bound(o, x, q, "an unordered iterator swapped from another cache");
    check_bound(s, y, p, "an unordered iterator swapped from another cache");
    OI c1(x);
    check_bound(o, c1, q, "an ordered iterator made from one of another cache");
    if (b & 4) (void)c1->second;
    c1 = OI(y);
    check_bound(s, c1, p, "an ordered iterator made from one of another cache");
    c1 = OI(x);
    check_bound(o, c1, q, "an ordered iterator made from one of another cache");
    x = y;
    check_bound(s, x, p, "an unordered iterator assigned from another cache");
    UCI cx = y;
    if (b & 8) (void)cx->second;
    cx = uiter_at(o, q);
    check_bound(o, cx, q, "an unordered const iterator assigned from another cache");
    UCI cy = uiter_at(s, p);
    cx.swap(cy);
    check_bound(o, cy, q, "an unordered const iterator swapped from another cache");
    check_bound(s, cx, p, "an unordered const iterator swapped from another cache");
    OCI co(cy);
    check_bound(o, co, q, "an ordered const iterator made from one of another cache");
    co = OCI(cx);
    check_bound(s, co, p, "an ordered const iterator made from one of another cache");
  }
  ev("iterators_moved_between_caches");
}
void op_iterate(const Op& op) {
  Slot& s = slot(op.s);
  if (!can_read(s)) return;
  C& c = *s.c;
  const C& cc = c;
  std::size_t n = s.order.size(), i = 0;
  auto at = [&](std::size_t j) -> Ent& {
    VP_CHK(j < n, "ITER", "iteration yields more than the %zu stored entries", n);
    return s.order[j];
  };
  std::vector<char> seen(n, 0);
  auto mark = [&](int k, int v) {
    int j = find_ent(s, k);
    VP_CHK(j >= 0, "ITER", "unordered iteration yields key %d, which is not stored", k);
    VP_CHK(!seen[static_cast<std::size_t>(j)], "ITER", "unordered iteration yields key %d twice", k);
    seen[static_cast<std::size_t>(j)] = 1;
    VP_CHK(s.order[static_cast<std::size_t>(j)].val == v, "ITER", "unordered iteration yields value %d for key %d", v, k);
    ++i;
  };
  switch (op.a % 16) {
    case 0: for (auto it = c.ordered_begin(); it != c.ordered_end(); ++it) { Ent& e = at(i++); check_entry(s, it, e, "ITER", "ordered ++it"); } break;
    case 1: for (auto it = c.ordered_begin(); it != c.ordered_end();) { auto old = it++; Ent& e = at(i++); check_entry(s, old, e, "ITER", "ordered it++"); } break;
    case 2: for (auto it = cc.ordered_cbegin(); it != cc.ordered_cend(); it++) { Ent& e = at(i++); check_entry(s, it, e, "ITER", "ordered const it++"); } break;
    case 3: {
      auto it = c.ordered_end();
      for (std::size_t j = n; j-- > 0;) { --it; check_entry(s, it, s.order[j], "ITER", "ordered --it"); ++i; }
      VP_CHK(it == c.ordered_begin(), "ITER", "walking back does not end at ordered_begin()");
      break;
    }
    case 4: {
      auto it = cc.ordered_end();
      for (std::size_t j = n; j-- > 0;) { auto old = it--; check_entry(s, it, s.order[j], "ITER", "ordered const it--"); if (j + 1 < n) check_entry(s, old, s.order[j + 1], "ITER", "result of it--"); else VP_CHK(old == cc.ordered_end(), "ITER", "the result of it-- at the end is not the end"); ++i; }
      VP_CHK(it == cc.ordered_begin(), "ITER", "walking back does not end at ordered_begin()");
      break;
    }
    case 5: for (auto& e : c) mark(cls(s, kid(e.first)), vid(e.second)); break;
    case 6: for (auto& e : cc) mark(cls(s, kid(e.key())), vid(e.value())); break;
    case 7: for (auto it = c.unordered_begin(); it != c.unordered_end();) { UI before = it; if (op.b & 1) (void)it->second; UI old = it++; VP_CHK(old == before && before != it, "ITER", "the result of it++ is not the previous position"); mark(cls(s, kid(old->first)), vid(old->second)); } break;
    case 8: for (auto it = cc.cbegin(); it != cc.cend(); ++it) mark(cls(s, kid((*it).first)), vid((*it).second)); break;
    case 9: {
      // zig-zag over the order, dereferencing at every step
      if (n == 0) break;
      Rng r(static_cast<u64>(op.k));
      std::size_t pos = 0;
      OI it = c.ordered_begin();
      OCI cit = it;
      for (int step = 0; step < 24; ++step) {
        std::size_t was = pos;
        OI kept = it;
        OCI ckept = cit;
        auto result = [&](auto old, auto& before) {
          VP_CHK(old == before, "ITER", "the result of it++ or it-- is not the previous position");
          if (was < n && r.chance(3, 4)) check_entry(s, old, s.order[was], "ITER", "result of it++ or it--");
        };
        if (pos < n && (pos == 0 || r.chance(1, 2))) {
          ++pos;
          if (r.chance(1, 2)) { VP_CHK(std::addressof(++it) == std::addressof(it), "ITER", "++it does not yield it"); ++cit; }
          else { result(it++, kept); result(cit++, ckept); }
        } else if (pos > 0) {
          --pos;
          if (r.chance(1, 2)) { VP_CHK(std::addressof(--it) == std::addressof(it), "ITER", "--it does not yield it"); --cit; }
          else { result(it--, kept); result(cit--, ckept); }
        }
        VP_CHK((it == c.ordered_end()) == (pos == n) && (cit == cc.ordered_cend()) == (pos == n) && (it == c.ordered_begin()) == (pos == 0), "ITER", "zig-zag iterator is not where it should be");
        if (pos == n) continue;
        if (r.chance(3, 4)) check_entry(s, it, s.order[pos], "ITER", "zig-zag iterator");
        if (r.chance(3, 4)) check_entry(s, cit, s.order[pos], "ITER", "zig-zag const iterator");
        VP_CHK(cit == OCI(it), "ITER", "const and non-const iterator to one entry differ");
        if (r.chance(1, 4)) { OI copy(it); check_entry(s, copy, s.order[pos], "ITER", "copied iterator"); it = c.ordered_begin(); if (r.chance(1, 2)) (void)it->second; it = copy; }
      }
      i = n;
      break;
    }
    case 10: {
      // every unordered iterator converts to the ordered one of the same entry
      for (auto it = c.unordered_begin(); it != c.unordered_end(); ++it) {
        if (op.b & 1) (void)it->second;
        OI o(it);
        int k = cls(s, kid(it->first));
        int j = find_ent(s, k);
        VP_CHK(j >= 0, "ITER", "unordered iteration yields key %d, which is not stored", k);
        check_entry(s, o, s.order[static_cast<std::size_t>(j)], "ITER", "converted iterator");
        VP_CHK(o == it && it == o && !(o != it) && !(it != o), "ITER", "ordered and unordered iterator to key %d differ", k);
        OCI oc(UCI{it});
        VP_CHK(oc == UCI(it) && UCI(it) == oc, "ITER", "ordered and unordered const iterator to key %d differ", k);
        check_entry(s, oc, s.order[static_cast<std::size_t>(j)], "ITER", "converted const iterator");
        // the order around it
        if (j + 1 < static_cast<int>(n)) { ++o; check_entry(s, o, s.order[static_cast<std::size_t>(j) + 1], "ITER", "successor of a converted iterator"); VP_CHK(o != it && it != o, "ITER", "iterators to different entries are equal"); --o; }
        if (j > 0) { --o; check_entry(s, o, s.order[static_cast<std::size_t>(j) - 1], "ITER", "predecessor of a converted iterator"); VP_CHK(!(o == it) && !(it == o), "ITER", "iterators to different entries are equal"); }
        ++i;
      }
      VP_CHK(c.ordered_end() == c.unordered_end() && c.unordered_end() == c.ordered_end(), "ITER", "ordered and unordered end differ");
      VP_CHK(cc.ordered_end() == cc.unordered_end() && !(cc.unordered_end() != cc.ordered_end()), "ITER", "const ordered and unordered end differ");
      VP_CHK(cc.ordered_end() == c.unordered_end() && !(c.unordered_end() != cc.ordered_end()) && cc.ordered_end() == c.ordered_end(), "ITER", "const and other ends differ");
      if (n) VP_CHK(c.ordered_begin() != c.unordered_end() && c.ordered_end() != c.unordered_begin(), "ITER", "begin of a non-empty cache equals the end");
      break;
    }
    case 11: {
      // iterators of another cache are never equal, also past the end
      for (auto& o : slots) {
        if (&o == &s || !can_read(o)) continue;
        VP_CHK(c.ordered_end() != o.c->unordered_end() && o.c->unordered_end() != c.ordered_end(), "ITER", "past-the-end iterators of two caches are equal");
        if (n) VP_CHK(o.c->ordered_end() != c.unordered_begin(), "ITER", "iterators of two caches are equal");
        const C& oc = *o.c;
        VP_CHK(cc.ordered_cend() != oc.unordered_cend() && !(oc.unordered_end() == cc.ordered_end()) && cc.ordered_cend() != o.c->unordered_end(), "ITER", "past-the-end const iterators of two caches are equal");
        if (n) VP_CHK(oc.ordered_end() != cc.unordered_begin() && !(cc.unordered_cbegin() == oc.ordered_cend()), "ITER", "const iterators of two caches are equal");
        if (n && !o.order.empty()) VP_CHK(oc.ordered_begin() != cc.unordered_begin() && !(cc.unordered_begin() == oc.ordered_cbegin()) && oc.ordered_begin() != cc.ordered_begin(), "ITER", "const iterators of two caches are equal");
        if (n && !o.order.empty()) VP_CHK(o.c->ordered_begin() != c.unordered_begin() , "ITER", "iterators of two caches are equal");
      }
      i = n;
      break;
    }
    case 12: {
      VP_CHK(static_cast<std::size_t>(std::distance(c.ordered_begin(), c.ordered_end())) == n, "ITER", "distance of the ordered range is wrong");
      VP_CHK(static_cast<std::size_t>(std::distance(cc.unordered_begin(), cc.unordered_end())) == n, "ITER", "distance of the unordered range is wrong");
      i = n;
      break;
    }
    case 13: {
      // assigning, swapping and default constructing iterators
      OI x;
      UI y;
      if (n) {
        std::size_t p = static_cast<std::size_t>(op.k) % n, q = static_cast<std::size_t>(op.v) % n;
        OI a = oiter_at(s, static_cast<int>(p)), b = oiter_at(s, static_cast<int>(q));
        if (op.b & 1) (void)a->second;
        if (op.b & 2) (void)b->second;
        x = a;
        check_entry(s, x, s.order[p], "ITER", "assigned iterator");
        a.swap(b);
        check_entry(s, a, s.order[q], "ITER", "swapped iterator");
        check_entry(s, b, s.order[p], "ITER", "swapped iterator");
        x = b;
        check_entry(s, x, s.order[p], "ITER", "reassigned iterator");
        x = a;
        check_entry(s, x, s.order[q], "ITER", "reassigned iterator");
        OI moved(std::move(a));
        check_entry(s, moved, s.order[q], "ITER", "moved iterator");
        UI u = uiter_at(s, static_cast<int>(p)), w = uiter_at(s, static_cast<int>(q));
        if (op.b & 4) (void)u->second;
        y = u;
        check_entry(s, y, s.order[p], "ITER", "assigned iterator");
        y = w;
        check_entry(s, y, s.order[q], "ITER", "reassigned iterator");
        u.swap(w);
        check_entry(s, u, s.order[q], "ITER", "swapped iterator");
        check_entry(s, w, s.order[p], "ITER", "swapped iterator");
        {
          using std::swap;
          swap(u, w);
          check_entry(s, u, s.order[p], "ITER", "iterator swapped by swap()");
          swap(u, w);
          check_entry(s, w, s.order[p], "ITER", "iterator swapped back by swap()");
          OI e = oiter_at(s, static_cast<int>(p)), f = oiter_at(s, static_cast<int>(q));
          if (op.b & 8) (void)f->second;
          swap(e, f);
          check_entry(s, e, s.order[q], "ITER", "iterator swapped by swap()");
          check_entry(s, f, s.order[p], "ITER", "iterator swapped by swap()");
        }
        for (auto& o : slots) if (&o != &s && can_read(o) && !o.order.empty()) {
          iterators_of_two(s, static_cast<int>(p), o, static_cast<int>(static_cast<std::size_t>(op.v) % o.order.size()), op.b);
          break;
        }
        UCI z = u;
        check_entry(s, z, s.order[q], "ITER", "const iterator");
        z = w;
        check_entry(s, z, s.order[p], "ITER", "reassigned const iterator");
        VP_CHK((u == w) == (p == q) && (u != w) == (p != q), "ITER", "comparison of unordered iterators is wrong");
        VP_CHK((b == moved) == (p == q) && (b != moved) == (p != q), "ITER", "comparison of ordered iterators is wrong");
      }
      i = n;
      break;
    }
    case 14: {
      // a plain pass with the checked accessors, where no entry is expired
      for (auto it = c.ordered_begin(); it != c.ordered_end(); ++it) {
        Ent& e = at(i++);
        if (expired(s, e)) continue;
        VP_CHK(cls(s, kid(it.key())) == e.cls && vid(it.value()) == e.val && vid(it.entry().second) == e.val && cls(s, kid(it.entry().first)) == e.cls, "ITER", "key(), value() or entry() of an ordered iterator is wrong");
        if (op.b & 1) check_entry(s, it, e, "ITER", "ordered after key()");
      }
      break;
    }
    default: {
      for (auto it = c.unordered_begin(); it != c.unordered_end(); ++it) {
        std::pair<const K&, V&> p = *it;
        mark(cls(s, kid(p.first)), vid(p.second));
        int j = find_ent(s, cls(s, kid(p.first)));
        if (j >= 0 && !expired(s, s.order[static_cast<std::size_t>(j)]))
          VP_CHK(cls(s, kid(it.key())) == s.order[static_cast<std::size_t>(j)].cls && vid(it.value()) == s.order[static_cast<std::size_t>(j)].val && vid(it.entry().value()) == s.order[static_cast<std::size_t>(j)].val, "ITER", "key() or value() of an unordered iterator is wrong");
        VP_CHK(*it == std::make_pair(p.first, p.second), "ITER", "an entry does not equal the pair of its key and value");
      }
      break;
    }
  }
  VP_CHK(i == n, "ITER", "iteration form %d yields %zu entries, %zu are stored", op.a % 16, i, n);
  expect_no_callbacks();
  ev("iterations");
  count("entries_iterated", n);
}

void op_iter_write(const Op& op) {
  Slot& s = slot(op.s);
  if (!can_read(s) || s.order.empty()) return;
  int i = static_cast<int>(static_cast<std::size_t>(op.k) % s.order.size());
  Ent& e = s.order[static_cast<std::size_t>(i)];
  int nv = fresh_val();
  bool live = !expired(s, e);
  switch (op.a % 6) {
    case 0: oiter_at(s, i)->second = mv(nv); break;
    case 1: uiter_at(s, i)->second = mv(nv); break;
    case 2: (*oiter_at(s, i)).value() = mv(nv); break;
    case 3: if (live) oiter_at(s, i).value() = mv(nv); else nv = e.val; break;
    case 4: if (live) uiter_at(s, i).value() = mv(nv); else nv = e.val; break;
    default: { auto it = uiter_at(s, i); auto& entry = *it; entry.second = mv(nv); break; }
  }
  e.val = nv;
  expect_no_callbacks();
  ev("writes_through_iterators");
}

template <typename A, typename B>
static constexpr auto comparable(int) -> decltype(bool(std::declval<const A&>() == std::declval<const B&>()) && bool(std::declval<const A&>() != std::declval<const B&>())) { return true; }
template <typename A, typename B>
static constexpr bool comparable(...) { return false; }

// What dereferencing yields: references to the stored key and value, that compare and convert like a pair of them.
template <typename It, typename Other>
void view_entry(Slot& s, It it, Other other, Ent& e, Ent& o, const K* kaddr, const V* vaddr, const char* how) {
  auto entry = *it;
  const auto& fixed = entry;
  VP_CHK(std::addressof(entry.first) == kaddr && std::addressof(entry.key()) == kaddr && std::addressof(it->first) == kaddr && std::addressof(it->key()) == kaddr && std::addressof(fixed.key()) == kaddr, "ENTRY", "%s: first or key() of an entry is not the stored key", how);
  VP_CHK(std::addressof(entry.second) == vaddr && std::addressof(entry.value()) == vaddr && std::addressof(it->second) == vaddr && std::addressof(it->value()) == vaddr && std::addressof(fixed.value()) == vaddr, "ENTRY", "%s: second or value() of an entry is not the stored value", how);
  if (!expired(s, e)) VP_CHK(std::addressof(it.key()) == kaddr && std::addressof(it.value()) == vaddr && std::addressof(it.entry().first) == kaddr && std::addressof(it.entry().second) == vaddr, "ENTRY", "%s: key(), value() or entry() of an iterator is not what * yields", how);
  LRU::Entry<const K, const V> view = entry;
  VP_CHK(std::addressof(view.first) == kaddr && std::addressof(view.second) == vaddr, "ENTRY", "%s: an entry of constants made from an entry refers to something else", how);
  auto copy = entry;
  VP_CHK(std::addressof(copy.first) == kaddr && std::addressof(copy.second) == vaddr, "ENTRY", "%s: a copied entry refers to something else", how);
  int raw = kid(entry.first);
  auto same = [&](const auto& a, const auto& b, bool want) {
    using A = std::decay_t<decltype(a)>;
    using B = std::decay_t<decltype(b)>;
    VP_CHK((comparable<A, B>(0) && comparable<B, A>(0)), "ENTRY", "%s: an entry cannot be compared with a pair or an entry", how);
    if constexpr (comparable<A, B>(0) && comparable<B, A>(0)) {
    bool eq = a == b, back = b == a, ne = a != b, nback = b != a;
    VP_CHK(eq == want && back == want && ne == !want && nback == !want, "ENTRY", "%s: entry (%d, %d): ==, ==, !=, != are %d %d %d %d, %s expected", how, raw, e.val, int(eq), int(back), int(ne), int(nback), want ? "1 1 0 0" : "0 0 1 1");
    }
  };
  same(entry, std::make_pair(mk(raw), mv(e.val)), true);
  same(view, std::pair<const K, V>(mk(raw), mv(e.val)), true);
  same(entry, std::make_pair(mk(raw), mv(e.val + 1)), same_val<V>(e.val, e.val + 1));
  same(view, std::make_pair(mk(raw + 1), mv(e.val)), false);
  same(entry, std::make_pair(mk(raw + 1), mv(e.val + 1)), false);
  same(entry, view, true);
  same(entry, copy, true);
  auto second = *other;
  bool equal = raw == kid(second.first) && same_val<V>(e.val, o.val);
  same(entry, second, equal);
  same(second, view, equal);
}

void op_entry(const Op& op) {
  Slot& s = slot(op.s);
  Slot& t = slot(op.s2);
  if (!can_read(s) || s.order.empty() || !can_read(t) || t.order.empty()) return;
  int i = static_cast<int>(static_cast<std::size_t>(op.k) % s.order.size());
  int j = static_cast<int>(static_cast<std::size_t>(op.v) % t.order.size());
  if (&s != &t && op.c % 2) {
    // the same key in the other cache, if it is there
    int f = find_ent(t, s.order[static_cast<std::size_t>(i)].cls);
    if (f >= 0) j = f;
  }
  Ent& e = s.order[static_cast<std::size_t>(i)];
  Ent& o = t.order[static_cast<std::size_t>(j)];
  UI u = uiter_at(s, i);
  const K* kaddr = std::addressof(u->first);
  const V* vaddr = std::addressof(u->second);
  switch (op.a % 5) {
    case 0: view_entry(s, oiter_at(s, i), uiter_at(t, j), e, o, kaddr, vaddr, "ordered"); break;
    case 1: view_entry(s, u, oiter_at(t, j), e, o, kaddr, vaddr, "unordered"); break;
    case 2: view_entry(s, OCI(oiter_at(s, i)), UCI(uiter_at(t, j)), e, o, kaddr, vaddr, "ordered const"); break;
    case 3: view_entry(s, UCI(u), oiter_at(t, j), e, o, kaddr, vaddr, "unordered const"); break;
    default: {
      // writing through what an entry converts to
      auto entry = *oiter_at(s, i);
      std::pair<const K&, V&> p = entry;
      VP_CHK(std::addressof(p.first) == kaddr && std::addressof(p.second) == vaddr, "ENTRY", "an entry converts to a pair of other references");
      auto again = *u;
      std::pair<const K&, V&> q = again;
      VP_CHK(std::addressof(q.first) == kaddr && std::addressof(q.second) == vaddr, "ENTRY", "an entry converts to a pair of other references");
      e.val = fresh_val();
      (op.b & 1 ? p : q).second = mv(e.val);
      VP_CHK(vid(entry.second) == e.val && vid(again.value()) == e.val, "ENTRY", "an entry does not show a value written through a pair made from it");
      break;
    }
  }
  expect_no_callbacks();
  ev("entries_viewed");
}

void op_frontback(const Op& op) {
  Slot& s = slot(op.s);
  if (!can_read(s)) return;
  if constexpr (!T::timed) {
    const C& c = *s.c;
    for (int which = 0; which < 2; ++which) {
      bool threw = false;
      try {
        const K& k = which ? c.back() : c.front();
        VP_CHK(!s.order.empty(), "ERRTYPE", "front() or back() of an empty cache did not throw");
        int want = which ? s.order.front().cls : s.order.back().cls;
        VP_CHK(cls(s, kid(k)) == want, "FRONTBACK", "%s() is key %d, expected %d", which ? "back" : "front", kid(k), want);
      } catch (const LRU::Error::EmptyCache&) {
        threw = true;
      }
      VP_CHK(threw == s.order.empty(), "ERRTYPE", "front() or back() of a non-empty cache threw EmptyCache");
    }
    ev("front_back_calls");
  }
  (void)op;
}

// ---------------------------------------------------------------- statistics
void attach(Slot& s, std::shared_ptr<MStats> m) {
  s.st = std::move(m);
}
std::shared_ptr<MStats> new_stats(const std::set<int>& keys) {
  auto m = std::make_shared<MStats>();
  for (int k : keys) m->keys[k];
  all_stats.push_back(m);
  return m;
}
void op_monitor(const Op& op) {
  Slot& s = slot(op.s);
  if (!can_read(s)) return;
  C& c = *s.c;
  Rng r(static_cast<u64>(op.k));
  std::vector<K> keys;
  std::set<int> ids;
  // sometimes many, also of keys that are never stored
  const bool many = r.chance(1, 6);
  int n = many ? r.below(60) : r.below(5);
  for (int i = 0; i < n; ++i) {
    int id = r.below(many ? universe + 60 : universe);
    keys.push_back(mk(id));
    ids.insert(id);
  }
  std::shared_ptr<MStats> m;
  int form = op.a % 15;
  switch (form) {
    case 0: c.monitor(); m = new_stats({}); break;
    case 1: c.monitor(keys); m = new_stats(ids); break;
    case 2: {
      int x = r.below(universe), y = r.below(universe);
      c.monitor(mk(x), mk(y));
      m = new_stats({x, y});
      break;
    }
    case 3: {
      int x = r.below(universe);
      K key = mk(x);
      c.monitor(key);
      m = new_stats({x});
      break;
    }
    case 4: c.monitor(keys.begin(), keys.end()); m = new_stats(ids); break;
    case 5: { const std::vector<K>& ck = keys; c.monitor(ck); m = new_stats(ids); break; }
    case 6: { auto p = std::make_shared<Stats>(keys); c.monitor(p); m = new_stats(ids); VP_CHK(c.shared_stats() == p, "STATSREG", "another statistics object was registered"); break; }
    case 7: { auto p = std::make_shared<Stats>(); c.monitor(std::move(p)); m = new_stats({}); break; }
    case 8: { int x = r.below(universe), y = r.below(universe), z = r.below(universe); c.monitor(std::make_shared<Stats>(mk(x), mk(y), mk(z))); m = new_stats({x, y, z}); break; }
    case 9: { int x = r.below(universe), y = r.below(universe); c.monitor(std::initializer_list<K>{mk(x), mk(y), mk(x)}); m = new_stats({x, y}); break; }
    case 14: {
      // a copy of what some cache counts, often of this one
      Slot* from = s.st ? &s : nullptr;
      if (!from || op.b % 3 == 0)
        for (Slot& t : slots)
          if (t.c && can_read(t) && t.st) from = &t;
      if (!from) { c.monitor(); m = new_stats({}); break; }
      const C& cf = *from->c;
      m = std::make_shared<MStats>(*from->st);
      m->strong = nullptr;
      m->weak.reset();
      all_stats.push_back(m);
      if (op.b & 1) c.monitor(from->c->stats()); else c.monitor(cf.stats());
      ev("statistics_copied_in_place");
      break;
    }
    case 12: case 13: {
      // many at once, as a list or as separate arguments
      int d[18];
      for (int& x : d) x = r.below(universe + 20);
      ids.clear();
      const int used = form == 12 ? 18 : 11;
      for (int i = 0; i < used; ++i) ids.insert(d[i]);
      if (form == 12)
        c.monitor(std::initializer_list<K>{mk(d[0]), mk(d[1]), mk(d[2]), mk(d[3]), mk(d[4]), mk(d[5]), mk(d[6]), mk(d[7]), mk(d[8]), mk(d[9]), mk(d[10]), mk(d[11]), mk(d[12]), mk(d[13]), mk(d[14]), mk(d[15]), mk(d[16]), mk(d[17])});
      else
        c.monitor(mk(d[0]), mk(d[1]), mk(d[2]), mk(d[3]), mk(d[4]), mk(d[5]), mk(d[6]), mk(d[7]), mk(d[8]), mk(d[9]), mk(d[10]));
      m = new_stats(ids);
      ev("many_keys_monitored_at_once");
      break;
    }
    default: {
      // share the statistics of another cache
      if (all_stats.empty()) { c.monitor(); m = new_stats({}); break; }
      m = all_stats[static_cast<std::size_t>(op.v) % all_stats.size()];
      if (!m->obj()) { c.monitor(); m = new_stats({}); break; }   // it is gone with the caches that owned it
      if (op.b % 4 == 0) {
        // a copy of it, with the same counts, which goes on separately
        auto copy = std::make_shared<MStats>(*m);
        if (op.b % 8) copy->strong = std::make_shared<Stats>(*m->obj());
        else { copy->strong = std::make_shared<Stats>(keys); *copy->strong = *m->obj(); }
        if (op.b % 3 == 0) {
          Stats moved(std::move(*copy->strong));
          *copy->strong = std::move(moved);
        }
        m = copy;
        all_stats.push_back(m);
        ev("statistics_copied");
      }
      // as other caches, or this one, hand it out
      Slot* from = nullptr;
      if (op.b % 3)
        for (Slot& t : slots)
          if (t.c && can_read(t) && t.st == m && (&t != &s || op.b % 3 == 1)) from = &t;
      if (from && from->c->shared_stats() == m->obj()) {
        if (from == &s) ev("statistics_given_back");
        const C& cf = *from->c;
        if (form & 1) c.monitor(from->c->shared_stats()); else c.monitor(cf.shared_stats());
        ev("statistics_handed_on");
      } else if (form & 1) { const auto p = m->obj(); c.monitor(p); }
      else { auto p = m->obj(); c.monitor(std::move(p)); }
      ev("statistics_shared");
      break;
    }
  }
  VP_CHK(c.shared_stats() != nullptr, "STATSREG", "no statistics are registered after monitor()");
  if (!m->strong) {
    if (r.chance(1, 3)) { m->weak = c.shared_stats(); ev("statistics_owned_by_caches"); }
    else m->strong = c.shared_stats();
  }
  attach(s, m);
  expect_no_callbacks();
  ev("monitored");
}
void op_stop(const Op& op) {
  Slot& s = slot(op.s);
  if (!can_read(s)) return;
  s.c->stop_monitoring();
  s.st.reset();
  ev("monitoring_stopped");
}
void op_stats(const Op& op) {
  Slot& s = slot(op.s);
  if (!can_read(s)) return;
  if (s.st) {
    check_stats(*s.st);
    C& c = *s.c;
    const C& cc = c;
    VP_CHK(&c.stats() == s.st->obj().get() && &cc.stats() == s.st->obj().get() && cc.shared_stats() == s.st->obj(), "STATSREG", "stats() or shared_stats() is another object");
  }
  (void)op;
}
void op_keystat(const Op& op) {
  if (all_stats.empty()) return;
  MStats& m = *all_stats[static_cast<std::size_t>(op.s) % all_stats.size()];
  const std::shared_ptr<Stats> held = m.obj();
  if (!held) return;
  Stats& st = *held;
  {
    LRU::KeyStatistics ks(static_cast<std::size_t>(op.a), static_cast<std::size_t>(op.b)), none;
    VP_CHK(ks.hits == static_cast<std::size_t>(op.a) && ks.misses == static_cast<std::size_t>(op.b) && ks.accesses() == ks.hits + ks.misses && none.hits == 0 && none.misses == 0,
           "KEYSTATS", "KeyStatistics does not hold what it was made of");
    ks.reset();
    VP_CHK(ks.hits == 0 && ks.misses == 0 && ks.accesses() == 0, "KEYSTATS", "KeyStatistics::reset() does not reset");
  }
  int raw = op.k % universe;
  K key = mk(raw);
  auto it = m.keys.find(raw);
  bool known = it != m.keys.end();
  int error = 0;
  try {
    switch (op.a % 10) {
      case 0: case 1: st.monitor(key); m.keys[raw]; ev("keys_registered"); error = -1; break;
      case 2: st.unmonitor(key); if (known) m.keys.erase(it); break;
      case 3: st.reset_key(key); if (known) it->second = {0, 0}; break;
      case 4: if (op.b % 4 == 0) { st.unmonitor_all(); m.keys.clear(); } error = -1; break;
      case 5: if (op.b % 2 == 0) { st.reset_all(); for (auto& p : m.keys) p.second = {0, 0}; ev("reset_all"); } error = -1; break;
      case 6: (void)st.hits_for(key); break;
      case 7: (void)st.misses_for(key); break;
      case 8: (void)st.accesses_for(key); break;
      default: if (op.b & 1) (void)st.stats_for(key); else (void)st[key]; break;
    }
  } catch (const LRU::Error::UnmonitoredKey&) {
    error = 1;
  } catch (const std::exception&) {
    error = 2;
  }
  if (error >= 0)
    VP_CHK(error == (known ? 0 : 1), "KEYSTATS", "statistics call %d on a%s registered key %s", op.a % 10, known ? "" : "n un", error == 1 ? "threw UnmonitoredKey" : error == 2 ? "threw another error" : "did not throw");
  VP_CHK(st.is_monitoring(key) == (m.keys.count(raw) != 0), "KEYSTATS", "is_monitoring(%d) is wrong", raw);
  ev(known ? "key_statistics_calls" : "key_statistics_unregistered");
}

// ---------------------------------------------------------------- callbacks
void register_callback(C& c, int kind, int id) {
  // with state of their own, which has to survive from call to call
  if (kind == 0) c.hit_callback([id, own = 0](const K& k, const V& v) mutable { log_callback(id, 0, raw_id(k), raw_id(v), ++own); });
  else if (kind == 1) c.miss_callback([id, own = 0](const K& k) mutable { log_callback(id, 1, raw_id(k), 0, ++own); });
  else c.access_callback([id, own = 0](const K& k, bool hit) mutable { log_callback(id, 2, raw_id(k), hit, ++own); });
}
static void log_callback(int cb, int kind, int key, int value, int own = 0) {
  if (!g_log) return;
  g_log->push_back(LogRec{cb, kind, key, value, own});
  fault_point(FK_CALLBACK);
}
void op_cb_add(const Op& op) {
  Slot& s = slot(op.s);
  if (!can_read(s)) return;
  int kind = op.a % 3, id = next_cb++;
  if (s.cbs[kind].size() >= 4) return;
  if (op.b % 32 == 31) {
    // very many of one kind
    int n = 5 + op.k % 36;
    for (int i = 0; i < n; ++i) { int x = next_cb++; register_callback(*s.c, kind, x); s.cbs[kind].push_back(x); }
    ev("many_callbacks_registered");
    return;
  }
  if (op.b % 8 == 6) {
    // everything at once
    for (int i = 0; i < 3; ++i) { int x = next_cb++; register_callback(*s.c, i, x); s.cbs[i].push_back(x); }
    if (!s.st && op.k % 2) { Op m = op; m.code = O_MONITOR; op_monitor(m); }
    ev("all_kinds_of_callbacks_registered");
    return;
  }
  if (op.b % 3 == 0 && kind == 0) {
    std::function<void(const K&, const V&)> f = [id](const K& k, const V& v) { log_callback(id, 0, raw_id(k), raw_id(v)); };
    s.c->hit_callback(f);
    VP_CHK(static_cast<bool>(f), "CALLBACK", "a callback passed as an lvalue was moved away");
  } else if (op.b % 3 == 0 && kind == 1) {
    std::function<void(const K&)> f = [id](const K& k) { log_callback(id, 1, raw_id(k), 0); };
    s.c->miss_callback(f);
    VP_CHK(static_cast<bool>(f), "CALLBACK", "a callback passed as an lvalue was moved away");
  } else {
    register_callback(*s.c, kind, id);
  }
  s.cbs[kind].push_back(id);
  ev("callbacks_registered");
}
void op_cb_clear(const Op& op) {
  Slot& s = slot(op.s);
  if (!can_read(s)) return;
  switch (op.a % 4) {
    case 0: s.c->clear_hit_callbacks(); s.cbs[0].clear(); break;
    case 1: s.c->clear_miss_callbacks(); s.cbs[1].clear(); break;
    case 2: s.c->clear_access_callbacks(); s.cbs[2].clear(); break;
    default: if (op.b % 3 == 0) { s.c->clear_all_callbacks(); for (auto& v : s.cbs) v.clear(); } break;
  }
  ev("callbacks_cleared");
}

// ---------------------------------------------------------------- time
void op_advance(const Op& op) {
  Slot& s = slots[static_cast<std::size_t>(op.s) % slots.size()];
  i64 d = 0;
  if (op.a % 3 && !s.order.empty()) {
    // to the very end of the life of an entry, or just beyond it
    const Ent& e = s.order[static_cast<std::size_t>(op.k) % s.order.size()];
    d = e.stamp - now() + s.ttl;
    if (d > 40 * 86400000000000ll) d = 1000000;
    if (op.b % 3 == 0) d += T::tick;
    if (op.b % 3 == 1 && d > T::tick) d -= T::tick;
    if (T::tick > 1) {
      // somewhere within a unit
      if (op.v % 3 == 0) d += T::tick - 1;
      if (op.v % 3 == 1 && d > 0) d -= 1;
    }
  } else {
    static const i64 steps[] = {1, 1000, 1000000, 2000000, 5000000, 30000000, 1000000000};
    d = steps[op.b % 7];
  }
  if (d < 0) return;
  // now and then the entry used last is the one that expires, and is used again
  int again = -1;
  if (op.c % 3 == 0 && op.a % 3 && !s.order.empty() && can_read(s)) {
    again = s.order[static_cast<std::size_t>(op.k) % s.order.size()].cls;
    if (op.c % 2) do_lookup(s, again, op.s2 % 8, false, false);
    else do_store(s, again, fresh_val(), op.s2 % 8);
    if (op.c % 2 == 0) {
      d = std::min<i64>(s.ttl, 40 * 86400000000000ll);
      if (op.b % 3) d += T::tick;
    }
  }
  g_steady_ns += d;
  g_system_ns += d;
  ev("time_steps");
  if (again >= 0) {
    do_lookup(s, again, op.v % 8, false, false);
    ev("last_used_expires");
  }
}
void op_wall(const Op& op) {
  static const i64 jumps[] = {1000000000, -1000000000, 3600000000000ll, -3600000000000ll, 86400000000000ll * 400, -86400000000000ll * 400};
  g_system_ns += jumps[op.a % 6];
  ev("wall_clock_jumps");
}

// ---------------------------------------------------------------- expiry
template <typename It>
int thrown_by(It f) {
  try {
    f();
  } catch (const LRU::Error::KeyExpired&) {
    return 2;
  } catch (const LRU::Error::InvalidIterator&) {
    return 1;
  } catch (const std::exception&) {
    return 9;
  }
  return 0;
}
template <typename It>
void check_validity(Slot& s, It&& it, int want, const char* how) {   // not a copy: it may have been dereferenced
  // want: 0 valid, 1 past the end, 2 expired
  const C& c = *s.c;
  VP_CHK(c.is_valid(it) == (want == 0), "EXPQ", "%s: is_valid() is %d for %s", how, int(want != 0), want == 0 ? "a valid entry" : want == 1 ? "the end" : "an expired entry");
  VP_CHK(thrown_by([&] { c.throw_if_invalid(it); }) == want, "EXPQ", "%s: throw_if_invalid() is wrong", how);
  VP_CHK(thrown_by([&] { (void)it.key(); }) == want, "EXPQ", "%s: key() throws the wrong error or none", how);
  VP_CHK(thrown_by([&] { (void)it.value(); }) == want, "EXPQ", "%s: value() throws the wrong error or none", how);
  VP_CHK(thrown_by([&] { (void)it.entry(); }) == want, "EXPQ", "%s: entry() throws the wrong error or none", how);
  if constexpr (T::timed) VP_CHK(c.has_expired(it) == (want == 2), "EXPQ", "%s: has_expired() is %d", how, int(want != 2));
  count("iterator_validity_checks");
}
void op_expq(const Op& op) {
  Slot& s = slot(op.s);
  if (!can_read(s)) return;
  C& c = *s.c;
  const C& cc = c;
  if (s.order.empty() || op.a % 5 == 0) {
    check_validity(s, c.unordered_end(), 1, "unordered end");
    check_validity(s, c.ordered_end(), 1, "ordered end");
    check_validity(s, cc.unordered_end(), 1, "unordered const end");
    check_validity(s, cc.ordered_end(), 1, "ordered const end");
    if constexpr (T::timed) {
      int j = find_ent(s, cls(s, universe + 5));
      bool x = j >= 0 && expired(s, s.order[static_cast<std::size_t>(j)]);
      VP_CHK(cc.has_expired(mk(universe + 5)) == x, "EXPQ", "has_expired() of %s key is %d", j < 0 ? "an absent" : "a stored", int(!x));
    }
    ev("end_iterator_checks");
  } else {
    int i = static_cast<int>(static_cast<std::size_t>(op.k) % s.order.size());
    Ent& e = s.order[static_cast<std::size_t>(i)];
    int want = expired(s, e) ? 2 : 0;
    check_validity(s, uiter_at(s, i), want, "unordered iterator");
    check_validity(s, ucit_at(s, i), want, "unordered const iterator");
    check_validity(s, oiter_at(s, i), want, "ordered iterator");
    check_validity(s, OCI(oiter_at(s, i)), want, "ordered const iterator");
    OI oi = oiter_at(s, i);
    UI ui = uiter_at(s, i);
    check_entry(s, oi, e, "EXPQ", "ordered ->");
    check_entry(s, ui, e, "EXPQ", "unordered ->");
    VP_CHK(vid((*oi).second) == e.val && vid((*ui).second) == e.val, "EXPQ", "* of an iterator is wrong");
    check_validity(s, oi, want, "dereferenced ordered iterator");
    check_validity(s, ui, want, "dereferenced unordered iterator");
    if constexpr (T::timed) VP_CHK(cc.has_expired(mk(to_raw(s, e.cls, op.v))) == (want == 2), "EXPQ", "has_expired(%d) is %d", e.cls, int(want != 2));
    ev(want ? "expired_queries" : "live_queries");
  }
  expect_no_callbacks();
}
void op_clear_expired(const Op& op) {
  Slot& s = slot(op.s);
  if (!can_read(s)) return;
  if constexpr (T::timed) {
    std::size_t n = s.c->clear_expired();
    std::size_t want = 0;
    for (std::size_t i = s.order.size(); i-- > 0;)
      if (expired(s, s.order[i])) { m_remove(s, static_cast<int>(i)); ++want; }
    VP_CHK(n == want, "EXPRES", "clear_expired() returned %zu, %zu entries were expired", n, want);
    expect_no_callbacks();
    if (want && !s.order.empty()) ev("clear_expired_partial");
    if (want) ev("clear_expired_some"); else ev("clear_expired_none");
  }
  (void)op;
}
void op_all_expired(const Op& op) {
  Slot& s = slot(op.s);
  if (!can_read(s)) return;
  if constexpr (T::timed) {
    bool all = true, any = false;
    for (auto& e : s.order) (expired(s, e) ? any : all) = expired(s, e);
    VP_CHK(s.c->all_expired() == all, "EXPRES", "all_expired() is %d", int(!all));
    expect_no_callbacks();
    ev(any && !all ? "all_expired_mixed" : "all_expired_calls");
  }
  (void)op;
}

// ---------------------------------------------------------------- held references and iterators
void op_hold(const Op& op) {
  Slot& s = slot(op.s);
  if (!can_read(s) || s.order.empty() || handles.size() > 12) return;
  int i = static_cast<int>(static_cast<std::size_t>(op.k) % s.order.size());
  Ent& e = s.order[static_cast<std::size_t>(i)];
  Handle h{e.eid, slot_index(s), true, nullptr, nullptr, UI(), UCI(), OI(), OCI()};
  h.ui = uiter_at(s, i);
  h.uci = op.a & 1 ? UCI(h.ui) : ucit_at(s, i);
  h.oi = op.a & 2 ? OI(h.ui) : oiter_at(s, i);
  h.oci = op.a & 4 ? OCI(h.oi) : OCI(h.uci);
  if (op.a & 8) { (void)h.ui->second; (void)h.oi->second; }
  h.ref = std::addressof((*h.oi).second);
  h.cref = std::addressof((*h.uci).second);
  // sometimes a reference from a lookup, which is a use of the key
  if ((op.a & 16) && !expired(s, e)) {
    int raw = to_raw(s, e.cls, op.v), val = e.val;
    log.clear();
    h.ref = op.a & 32 ? std::addressof((*s.c)[mk(raw)]) : std::addressof(s.c->lookup(mk(raw)));
    s.last_cls = e.cls;
    to_front(s, i);
    expect_access(s, raw, true, val);
  }
  handles.push_back(h);
  ev("handles_taken");
}
void op_huse(const Op& op) {
  if (handles.empty()) return;
  Handle& h = handles[static_cast<std::size_t>(op.k) % handles.size()];
  int i = handle_ent(h);
  if (i < 0) return;
  Slot& s = slots[static_cast<std::size_t>(h.slot)];
  touched |= 1ull << h.slot;
  check_handle(h, true);
  if (op.a % 3 == 0) {
    // write through it and see the value everywhere
    int nv = fresh_val();
    switch (h.iters ? op.b % 5 : 0) {
      case 0: *h.ref = mv(nv); break;
      case 1: h.ui->second = mv(nv); break;
      case 2: h.oi->second = mv(nv); break;
      case 3: (*h.ui).value() = mv(nv); break;
      default: (*h.oi).second = mv(nv); break;
    }
    s.order[static_cast<std::size_t>(i)].val = nv;
    check_handle(h, false);
    ev("writes_through_handles");
  } else if (op.a % 11 == 1 && h.iters) {
    // advance the held iterators themselves and come back
    if (i + 1 < static_cast<int>(s.order.size())) {
      ++h.oi;
      check_entry(s, h.oi, s.order[static_cast<std::size_t>(i) + 1], "HANDLE", "advanced held iterator");
      --h.oi;
    } else {
      ++h.oi;
      VP_CHK(h.oi == s.c->ordered_end(), "HANDLE", "the successor of the last entry is not the end");
      --h.oi;
    }
    check_handle(h, false);
  } else if (op.a % 11 == 2 && h.iters) {
    // erase through it
    switch (op.b % 4) {
      case 0: s.c->erase(h.ui); break;
      case 1: s.c->erase(h.oi); break;
      case 2: s.c->erase(h.uci); break;
      default: s.c->erase(h.oci); break;
    }
    m_remove(s, i);
    h.eid = 0;
    ev("erasures_through_handles");
  }
  expect_no_callbacks();
}
void op_hdrop(const Op& op) {
  if (handles.empty()) return;
  if (op.a % 4 == 0) { handles.clear(); return; }
  handles.erase(handles.begin() + static_cast<long>(static_cast<std::size_t>(op.k) % handles.size()));
}

// ---------------------------------------------------------------- comparison
bool m_equal(const Slot& a, const Slot& b) {
  if (a.order.size() != b.order.size()) return false;
  for (std::size_t i = 0; i < a.order.size(); ++i) {
    if (a.order[i].cls != b.order[i].cls || !same_val<V>(a.order[i].val, b.order[i].val)) return false;
    if (T::timed && a.order[i].stamp != b.order[i].stamp) return false;
  }
  return true;
}
void check_equality(Slot& a, Slot& b) {
  if (a.fn.n || b.fn.n) return;   // equality of keys is == there, not the supplied one
  if (T::fn && a.fn.mode != b.fn.mode) return;   // the standard requires hashes of one behaviour
  bool want = &a == &b || m_equal(a, b);
  const C& ca = *a.c;
  const C& cb = *b.c;
  VP_CHK((ca == cb) == want, "EQ", "caches with %s contents compare %s", want ? "the same" : "different", want ? "unequal" : "equal");
  VP_CHK((cb == ca) == want, "EQ", "comparison is not symmetric");
  VP_CHK((ca != cb) == !want && (cb != ca) == !want, "EQ", "!= is not the negation of ==");
  ev(want ? (&a == &b ? "self_comparisons" : "equal_comparisons") : "unequal_comparisons");
  if (!want && a.order.size() == b.order.size()) {
    std::vector<std::pair<int, int>> x, y;
    for (auto& e : a.order) x.emplace_back(e.cls, e.val);
    for (auto& e : b.order) y.emplace_back(e.cls, e.val);
    std::sort(x.begin(), x.end());
    std::sort(y.begin(), y.end());
    if (x == y) ev("equal_entries_other_order");
  }
}
void op_equal(const Op& op) {
  Slot& a = slot(op.s);
  Slot& b = slot(op.s2);
  if (!can_read(a) || !can_read(b)) return;
  check_equality(a, b);
  expect_no_callbacks();
}
// rebuild the contents of one cache in another by a different route, then change one thing
void op_eq_rebuild(const Op& op) {
  Slot& a = slot(op.s);
  Slot& b = slot(op.s2);
  if (&a == &b || !can_read(a) || a.fn.n) return;
  Rng r(static_cast<u64>(op.k));
  FnCfg fn = a.fn;
  if (T::fn) fn.tag = 1 + r.below(1000);
  std::size_t cap = a.order.size() + static_cast<std::size_t>(r.below(5)) + 2;
  drop_handles(slot_index(b), false);
  remember(b, make_empty(cap, a.ttl, fn, op.v), cap, a.ttl, fn);
  bool same_time = true;
  for (auto& e : a.order)
    if (e.stamp != now()) same_time = false;
  if (T::timed && !same_time) {
    // equal insertion times: store everything in both afresh
    std::vector<Ent> order = a.order;
    for (auto& e : order) {
      a.c->insert(mk(e.cls), mv(e.val));
      m_store(a, e.cls, e.val);
    }
  }
  // noise: other entries first, erased again; entries in another order, reordered by use
  std::vector<Ent> order = a.order;
  if (r.chance(1, 2)) {
    int n = r.below(20);
    for (int i = 0; i < n; ++i) do_store(b, universe + i, fresh_val(), 0);
    for (int i = 0; i < n; ++i) {
      int raw = universe + i;
      int j = find_ent(b, cls(b, raw));
      if (j >= 0) { b.c->erase(mk(raw)); m_remove(b, j); }
    }
  }
  std::vector<std::size_t> perm(order.size());
  for (std::size_t i = 0; i < perm.size(); ++i) perm[i] = i;
  bool shuffled = r.chance(1, 2);
  if (shuffled)
    for (std::size_t i = perm.size(); i > 1; --i) std::swap(perm[i - 1], perm[static_cast<std::size_t>(r.below(static_cast<int>(i)))]);
  for (std::size_t i : perm) do_store(b, order[i].cls, order[i].val, r.below(8));
  int variant = r.below(5);
  if (shuffled && variant != 1)
    for (auto& e : order)
      if (!expired(b, b.order[static_cast<std::size_t>(find_ent(b, e.cls))])) do_lookup(b, e.cls, r.below(8), false, false);
  check_equality(a, b);
  check_equality(b, b);
  if (variant == 2 && !b.order.empty()) {
    // one different value
    int j = r.below(static_cast<int>(b.order.size()));
    int nv = fresh_val();
    oiter_at(b, j)->second = mv(nv);
    b.order[static_cast<std::size_t>(j)].val = nv;
    check_equality(a, b);
  } else if (variant == 3) {
    do_store(b, universe + 50, fresh_val(), 0);
    check_equality(a, b);
    int j = find_ent(b, cls(b, universe + 50));
    b.c->erase(mk(universe + 50));
    if (j >= 0) m_remove(b, j);
    check_equality(a, b);
  } else if (variant == 4 && b.order.size() > 1) {
    // another order only
    do_lookup(b, b.order[static_cast<std::size_t>(r.below(static_cast<int>(b.order.size()) - 1))].cls, r.below(8), false, false);
    check_equality(a, b);
  }
  ev("rebuilt_equal");
}

// ---------------------------------------------------------------- arguments inside the cache
void op_alias(const Op& op) {
  Slot& s = slot(op.s);
  if (!can_read(s) || s.order.empty()) return;
  C& c = *s.c;
  int i = static_cast<int>(static_cast<std::size_t>(op.k) % s.order.size());
  int j = static_cast<int>(static_cast<std::size_t>(op.v) % s.order.size());
  if (op.b % 3 == 0) i = 0;
  if (op.b % 3 == 1) j = 0;
  Ent ei = s.order[static_cast<std::size_t>(i)], ej = s.order[static_cast<std::size_t>(j)];
  auto it = oiter_at(s, i);
  auto jt = oiter_at(s, j);
  const K& key = it->first;
  V& value = jt->second;
  int raw_i = kid(key);
  switch (op.a % 8) {
    case 0: {   // update a key with a value in the cache
      c.insert(key, value);
      m_store(s, raw_i, ej.val);
      break;
    }
    case 1: {   // a new key with a value in the cache, possibly of the entry evicted for it
      int raw = universe + 1 + op.c % 7;
      c.insert(mk(raw), value);
      m_store(s, raw, ej.val);
      break;
    }
    case 2: {
      int raw = universe + 1 + op.c % 7;
      c.emplace(mk(raw), value);
      m_store(s, raw, ej.val);
      break;
    }
    case 3: {
      bool r = c.erase(key);
      VP_CHK(r, "ERASERES", "erasing the stored key %d by a reference into the cache failed", ei.cls);
      m_remove(s, i);
      break;
    }
    case 4: {
      log.clear();
      bool want = !expired(s, ei);
      bool r = op.c & 1 ? c.contains(key) : c.find(key) != c.end();
      VP_CHK(r == want, T::timed ? "TTL" : "RET", "lookup of key %d by a reference into the cache is wrong", ei.cls);
      if (want) { to_front(s, i); s.last_cls = ei.cls; }
      expect_access(s, raw_i, want, want ? ei.val : -1);
      break;
    }
    case 5: {
      c.emplace(key, value);
      m_store(s, raw_i, ej.val);
      break;
    }
    case 6: {
      if constexpr (!T::timed) {
        bool front = op.c & 1;
        int t = front ? static_cast<int>(s.order.size()) - 1 : 0;
        bool r = c.erase(front ? c.front() : c.back());
        VP_CHK(r, "ERASERES", "erasing front() or back() failed");
        m_remove(s, t);
      }
      break;
    }
    default: {
      // insert the entries of the cache itself, collected as a range
      std::vector<std::pair<K, V>> own;
      for (auto& e : s.order) own.emplace_back(mk(e.cls), mv(e.val));
      std::vector<Ent> before = s.order;
      c.insert(own);
      for (auto& e : before) m_store(s, e.cls, e.val);
      break;
    }
  }
  expect_no_callbacks();
  ev("aliased_arguments");
}

// ---------------------------------------------------------------- misuse
template <typename E, typename F>
void must_throw(F f, const char* what) {
  int r = 0;
  try {
    f();
  } catch (const E& e) {
    r = 1;
    const std::runtime_error& base = e;
    VP_CHK(base.what() != nullptr && base.what()[0] != 0, "ERRTYPE", "%s: the error has no message", what);
  } catch (const std::exception&) {
    r = 2;
  }
  VP_CHK(r == 1, "ERRTYPE", "%s %s", what, r == 0 ? "did not throw" : "threw another error than the documented one");
  // and as a std::runtime_error
  r = 0;
  try {
    f();
  } catch (const std::runtime_error&) {
    r = 1;
  } catch (...) {
    r = 2;
  }
  VP_CHK(r == 1, "ERRTYPE", "%s is not catchable as std::runtime_error", what);
  count("documented_errors_seen");
}
void op_misuse(const Op& op) {
  Slot& s = slot(op.s);
  if (!can_read(s)) return;
  C& c = *s.c;
  const C& cc = c;
  namespace LE = LRU::Error;
  switch (op.a % 10) {
    case 0: {
      // an absent key
      int raw = op.k % (universe + 10);
      if (find_ent(s, cls(s, raw)) >= 0) return;
      K key = mk(raw);
      log.clear();
      must_throw<LE::KeyNotFound>([&] { (void)c.lookup(key); }, "lookup of an absent key");
      must_throw<LE::KeyNotFound>([&] { (void)cc.lookup(key); }, "const lookup of an absent key");
      must_throw<LE::KeyNotFound>([&] { (void)c[key]; }, "[] of an absent key");
      must_throw<LE::KeyNotFound>([&] { (void)cc[key]; }, "const [] of an absent key");
      std::vector<LogRec> all;
      all.swap(log);
      std::size_t per = s.cbs[1].size() + s.cbs[2].size();
      VP_CHK(all.size() == per * 8, "CALLBACK", "%zu callbacks ran in 8 failed lookups, %zu are due", all.size(), per * 8);
      for (int i = 0; i < 8; ++i) {
        log.assign(all.begin() + static_cast<long>(per * static_cast<std::size_t>(i)), all.begin() + static_cast<long>(per * static_cast<std::size_t>(i + 1)));
        expect_access(s, raw, false, -1);
      }
      break;
    }
    case 1:
      if constexpr (!T::timed) {
        if (!s.order.empty()) return;
        must_throw<LE::EmptyCache>([&] { (void)c.front(); }, "front() of an empty cache");
        must_throw<LE::EmptyCache>([&] { (void)cc.back(); }, "back() of an empty cache");
      }
      break;
    case 2: {
      must_throw<LE::InvalidIterator>([&] { c.erase(c.unordered_end()); }, "erase(unordered end)");
      must_throw<LE::InvalidIterator>([&] { c.erase(cc.unordered_end()); }, "erase(unordered const end)");
      must_throw<LE::InvalidIterator>([&] { c.erase(c.end()); }, "erase(end)");
      break;
    }
    case 3: {
      must_throw<LE::InvalidIterator>([&] { c.erase(c.ordered_end()); }, "erase(ordered end)");
      must_throw<LE::InvalidIterator>([&] { c.erase(cc.ordered_end()); }, "erase(ordered const end)");
      break;
    }
    case 4: {
      must_throw<LE::InvalidIterator>([&] { (void)c.end().key(); }, "key() of the unordered end");
      must_throw<LE::InvalidIterator>([&] { (void)c.end().value(); }, "value() of the unordered end");
      must_throw<LE::InvalidIterator>([&] { (void)c.end().entry(); }, "entry() of the unordered end");
      must_throw<LE::InvalidIterator>([&] { (void)cc.cend().entry(); }, "entry() of the unordered const end");
      break;
    }
    case 5: {
      must_throw<LE::InvalidIterator>([&] { (void)c.ordered_end().key(); }, "key() of the ordered end");
      must_throw<LE::InvalidIterator>([&] { (void)c.ordered_end().value(); }, "value() of the ordered end");
      must_throw<LE::InvalidIterator>([&] { (void)c.ordered_end().entry(); }, "entry() of the ordered end");
      must_throw<LE::InvalidIterator>([&] { (void)cc.ordered_cend().entry(); }, "entry() of the ordered const end");
      break;
    }
    case 6: {
      must_throw<LE::InvalidIteratorConversion>([&] { OI o(c.unordered_end()); (void)o; }, "converting the unordered end");
      must_throw<LE::InvalidIteratorConversion>([&] { OCI o(cc.unordered_end()); (void)o; }, "converting the unordered const end");
      must_throw<LE::InvalidIteratorConversion>([&] { UI u = c.unordered_end(); OI o(u); (void)o; }, "converting an lvalue unordered end");
      must_throw<LE::InvalidIteratorConversion>([&] { OCI o(c.unordered_end()); (void)o; }, "converting the unordered end to a const iterator");
      must_throw<LE::InvalidIteratorConversion>([&] { const UCI u = cc.cend(); OCI o(u); (void)o; }, "converting a const lvalue unordered const end");
      must_throw<LE::InvalidIteratorConversion>([&] { OCI o(cc.end()); (void)o; }, "converting the unordered const end");
      OCI kept = cc.ordered_begin();
      must_throw<LE::InvalidIteratorConversion>([&] { kept = OCI(cc.unordered_end()); }, "assigning the unordered end to an ordered iterator");
      VP_CHK(kept == cc.ordered_begin(), "ITER", "a failed assignment of an unordered iterator changed the ordered one");
      break;
    }
    case 7: {
      if (s.st) return;
      must_throw<LE::NotMonitoring>([&] { (void)c.stats(); }, "stats() without statistics");
      must_throw<LE::NotMonitoring>([&] { (void)cc.stats(); }, "const stats() without statistics");
      break;
    }
    case 8: {
      if (!s.st) return;
      int raw = op.k % universe;
      if (s.st->keys.count(raw)) return;
      K key = mk(raw);
      Stats& st = c.stats();
      must_throw<LE::UnmonitoredKey>([&] { (void)st.hits_for(key); }, "hits_for() an unregistered key");
      must_throw<LE::UnmonitoredKey>([&] { (void)st.misses_for(key); }, "misses_for() an unregistered key");
      must_throw<LE::UnmonitoredKey>([&] { (void)st.accesses_for(key); }, "accesses_for() an unregistered key");
      must_throw<LE::UnmonitoredKey>([&] { (void)st.stats_for(key); }, "stats_for() an unregistered key");
      must_throw<LE::UnmonitoredKey>([&] { (void)st[key]; }, "[] of an unregistered key");
      must_throw<LE::UnmonitoredKey>([&] { st.unmonitor(key); }, "unmonitor() an unregistered key");
      must_throw<LE::UnmonitoredKey>([&] { st.reset_key(key); }, "reset_key() an unregistered key");
      break;
    }
    default: {
      // iterators that ran off the end by incrementing
      auto it = c.ordered_begin();
      for (std::size_t i = 0; i < s.order.size(); ++i) { if (op.b & 1) (void)it->second; ++it; }
      must_throw<LE::InvalidIterator>([&] { (void)it.entry(); }, "entry() of an ordered iterator run off the end");
      auto ut = c.unordered_begin();
      for (std::size_t i = 0; i < s.order.size(); ++i) { if (op.b & 1) (void)ut->second; ut++; }
      must_throw<LE::InvalidIterator>([&] { (void)ut.entry(); }, "entry() of an unordered iterator run off the end");
      must_throw<LE::InvalidIterator>([&] { c.erase(ut); }, "erase() of an unordered iterator run off the end");
      must_throw<LE::InvalidIterator>([&] { c.erase(it); }, "erase() of an ordered iterator run off the end");
      break;
    }
  }
  expect_no_callbacks();
  ev("misuses");
}

// ---------------------------------------------------------------- longer sequences
// Evict everything one by one and watch the order in which entries go.
void op_drain(const Op& op) {
  Slot& s = slot(op.s);
  if (!can_read(s) || s.cap == 0) return;
  std::size_t n = s.order.size();
  if (n > 60) return;
  if (op.a % 3 == 0) {
    for (std::size_t left = n; left-- > 0;) { s.c->shrink(left); m_trim(s, left); audit_contents(s); }
  } else if (op.a % 3 == 1) {
    std::size_t cap = s.cap;
    for (std::size_t left = n; left-- > 1;) { s.c->capacity(left); s.cap = left; m_trim(s, left); audit_contents(s); }
    s.c->capacity(cap);
    s.cap = cap;
  } else {
    if (s.cap > 60) return;
    for (std::size_t i = 0; i < s.cap; ++i) { do_store(s, universe + 100 + static_cast<int>(i) % 40, fresh_val(), op.b % 8); audit_contents(s); }
  }
  ev("drains");
}
// Many insertions and lookups of one kind in a row: growth, rehashing, long evictions.
void op_burst(const Op& op) {
  Slot& s = slot(op.s);
  if (!can_read(s)) return;
  int n = op.a % (set.big ? 400 : 40);
  if (op.c % 3 == 0) {
    // mostly lookups, so that counts become large while the rest stays as it is
    n = op.a % (set.big ? 300 : 120);
    Rng r(static_cast<u64>(op.k));
    for (int i = 0; i < n; ++i) {
      int raw = !s.order.empty() && r.chance(2, 3) ? s.order[r.below(static_cast<int>(s.order.size()))].cls : r.below(universe);
      if (r.chance(1, 12)) do_store(s, raw, fresh_val(), r.below(8));
      else do_lookup(s, raw, r.below(8), false, false);
    }
    ev("lookup_bursts");
    return;
  }
  if (op.b % 3 == 0 && set.big) {
    s.c->capacity(300);
    s.cap = 300;
    m_trim(s, 300);
  }
  Rng r(static_cast<u64>(op.k));
  for (int i = 0; i < n; ++i) {
    if (r.chance(3, 4)) do_store(s, r.below(std::max(universe, n * 2)), fresh_val(), r.below(8));
    else do_lookup(s, r.below(std::max(universe, n * 2)), r.below(8), false, false);
  }
  ev("bursts");
}
