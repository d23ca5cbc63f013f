// Part of class World: one operation with a failure injected into it (C18).
// The same history is run again and again with the failure at the first, the
// second, ... point of the operation at which anything can fail.

struct FaultPlan {
  int what;            // 0 store, 1 bulk insertion, 2 lookup, 3 copy, 4 bulk construction
  int form;
  int raw = 0, val = 0;
  Source src;
};

std::string show(const std::vector<std::pair<int, int>>& v) const {
  std::string t;
  for (auto& x : v) t += strf(" %d=%d", x.first, x.second);
  return t;
}
static std::vector<std::pair<int, int>> contents(const std::vector<Ent>& order) {
  std::vector<std::pair<int, int>> v;
  for (auto& e : order) v.emplace_back(e.cls, e.val);
  return v;
}

// What the cache holds according to both ways of iterating.
std::vector<std::pair<int, int>> observe(Slot& s, const char* what) {
  const C& c = *s.c;
  std::vector<std::pair<int, int>> v, u;
  std::size_t limit = s.order.size() + 1000;
  for (auto it = c.ordered_begin(); it != c.ordered_end(); ++it) {
    VP_CHK(v.size() < limit, "FAULT", "after a failed %s: ordered iteration does not end", what);
    v.emplace_back(cls(s, kid(it->first)), vid(it->second));
  }
  for (auto it = c.unordered_begin(); it != c.unordered_end(); ++it) {
    VP_CHK(u.size() < limit, "FAULT", "after a failed %s: unordered iteration does not end", what);
    u.emplace_back(cls(s, kid(it->first)), vid(it->second));
  }
  auto a = v, b = u;
  std::sort(a.begin(), a.end());
  std::sort(b.begin(), b.end());
  if (a != b)
    fail("FAULT", strf("after a failed %s: ordered iteration yields%s, unordered iteration%s", what, show(a).c_str(), show(b).c_str()));
  for (std::size_t i = 1; i < a.size(); ++i)
    VP_CHK(a[i].first != a[i - 1].first, "FAULT", "after a failed %s: key %d is stored twice", what, a[i].first);
  VP_CHK(c.size() == v.size(), "FAULT", "after a failed %s: size() is %zu, iteration yields %zu entries", what, c.size(), v.size());
  VP_CHK(v.size() <= s.cap && c.capacity() == s.cap, "FAULT", "after a failed %s: %zu entries in a cache of capacity %zu (capacity() is %zu)",
         what, v.size(), s.cap, c.capacity());
  return v;
}

static bool take(std::vector<std::pair<int, int>>& v, int k, int* val) {
  for (std::size_t i = 0; i < v.size(); ++i)
    if (v[i].first == k) {
      *val = v[i].second;
      v.erase(v.begin() + static_cast<long>(i));
      return true;
    }
  return false;
}

// Is obs a state that storing (raw, val) into base may leave when it fails?
bool partial_store(const Slot& base, const std::vector<std::pair<int, int>>& obs, int raw, int val) {
  auto have = obs, old = contents(base.order);
  int k = base.fn.cls(raw), now_val = -1, old_val = -1;
  bool stored = take(have, k, &now_val);
  bool present = take(old, k, &old_val);
  if (stored && now_val != val && !(present && now_val == old_val)) return false;
  if (have == old) return true;
  // the oldest entry had to go for a new key in a full cache
  if (present || base.order.size() < base.cap || old.empty()) return false;
  old.erase(old.begin());
  return have == old;
}

static Slot bare(const Slot& s) {
  Slot b;
  b.order = s.order;
  b.cap = s.cap;
  b.ttl = s.ttl;
  b.fn = s.fn;
  b.last_cls = s.last_cls;
  return b;
}

// The model of slot s becomes what was observed; what is known of entries that
// were there before is kept.
void adopt(Slot& s, const Slot& base, const std::vector<std::pair<int, int>>& obs) {
  std::vector<Ent> order;
  for (auto& o : obs) {
    int i = find_ent(base, o.first);
    if (i >= 0) {
      Ent e = base.order[static_cast<std::size_t>(i)];
      e.val = o.second;
      order.push_back(e);
    } else {
      order.push_back(Ent{o.first, o.second, now(), next_eid++, nullptr, nullptr});
    }
  }
  s.order = order;
  for (auto& e : s.order) e.kaddr = e.vaddr = nullptr;
  s.last_cls = -1;
}

void after_failure(Slot& s, const FaultPlan& p, const char* what) {
  auto obs = observe(s, what);
  Slot base = bare(s);
  int unsure = -1;
  if (p.what == 2) {
    auto have = obs, old = contents(base.order);
    int k = cls(s, p.raw), a = -1, b = -1;
    bool was_last = !old.empty() && old.back().first == k;
    (void)was_last;
    bool x = take(have, k, &a), y = take(old, k, &b);
    if (x != y || a != b || have != old)
      fail("FAULT", strf("after a failed lookup of %d the entries are%s, before they were%s", p.raw, show(obs).c_str(), show(contents(base.order)).c_str()));
  } else {
    std::vector<std::pair<int, int>> pairs = p.src.ids;
    if (p.what == 0) pairs = {{p.raw, p.val}};
    bool ok = false;
    std::size_t j = 0;
    Slot best = bare(base);
    for (;; ++j) {
      if (contents(base.order) == obs) { ok = true; best = bare(base); unsure = -1; }
      else if (j < pairs.size() && base.cap > 0 && partial_store(base, obs, pairs[j].first, pairs[j].second)) {
        if (!ok) { best = bare(base); unsure = cls(s, pairs[j].first); }
        ok = true;
      }
      if (j == pairs.size()) break;
      m_store(base, pairs[j].first, pairs[j].second);
    }
    if (!ok)
      fail("FAULT", strf("after a failed %s of%s the entries are%s, before they were%s (capacity %zu)", what, show(pairs).c_str(),
                         show(obs).c_str(), show(contents(s.order)).c_str(), s.cap));
    base = bare(best);
  }
  adopt(s, base, obs);
  // whether statistics counted the lookup that failed is open
  if (s.st) {
    const std::shared_ptr<Stats> held = s.st->obj();
    const Stats& st = *held;
    u64 a = st.total_accesses(), h = st.total_hits();
    u64 n = p.what == 2 ? 1 : 0;
    VP_CHK(a >= s.st->accesses && a <= s.st->accesses + n && h >= s.st->hits && h <= s.st->hits + n && h <= a && st.total_misses() == a - h,
           "FAULT", "after a failed %s: %llu accesses with %llu hits are counted, before it was %llu with %llu", what,
           (unsigned long long)a, (unsigned long long)h, (unsigned long long)s.st->accesses, (unsigned long long)s.st->hits);
    s.st->accesses = a;
    s.st->hits = h;
    if (!(T::fn && mod_used))
      for (auto& k : s.st->keys) {
        K key = mk(k.first);
        u64 kh = st.hits_for(key), km = st.misses_for(key);
        u64 m = n && k.first == p.raw ? 1 : 0;
        VP_CHK(kh >= k.second.first && kh <= k.second.first + m && km >= k.second.second && km <= k.second.second + m, "FAULT",
               "after a failed %s: the counts of key %d changed", what, k.first);
        k.second = {kh, km};
      }
  }
  if (p.what != 2)
    VP_CHK(log.empty(), "FAULT", "a failed %s ran callbacks", what);
  log.clear();
  if (T::timed && unsure >= 0 && find_ent(s, unsure) >= 0) {
    // it is open from when its time to live counts
    int raw = to_raw(s, unsure, rng.below(3));
    if (rng.chance(1, 2)) {
      VP_CHK(s.c->erase(mk(raw)), "FAULT", "after a failed %s: key %d cannot be erased", what, raw);
      m_remove(s, find_ent(s, unsure));
    } else {
      // was it expired before? then whether it counts as new is unspecified
      s.order[static_cast<std::size_t>(find_ent(s, unsure))].stamp = now() - s.ttl - T::tick;
      do_store(s, raw, fresh_val(), rng.below(8));
    }
  }
}

// Returns whether the failure occurred.
bool armed_operation(long point) {
  static const char* const whats[] = {"store", "bulk insertion", "lookup", "copy", "bulk construction"};
  Slot* chosen = nullptr;
  for (std::size_t i = 0; i < slots.size(); ++i) {
    Slot& s = slot(rng.below(100));
    if (can_read(s)) { chosen = &s; break; }
  }
  Op op{0, 0, 0, rng.below(1 << 24), 0, rng.below(1 << 24), rng.below(1 << 24), rng.below(1 << 24)};
  FaultPlan p;
  static const int kinds[] = {0, 0, 0, 1, 1, 2, 2, 2, 2, 3, 4};
  p.what = kinds[rng.below(11)];
  int draws[4] = {rng.below(1 << 20), rng.below(1 << 20), rng.below(1 << 20), rng.below(1 << 20)};
  if (!chosen) return false;
  Slot& s = *chosen;
  p.raw = pick_key(op, s);
  p.val = fresh_val();
  FnCfg fn = s.fn;
  std::size_t cap = draw_cap(draws[2]);
  i64 ttl = draw_ttl(draws[3]);
  std::unique_ptr<C> extra;
  Slot tmp;
  tmp.fn = fn;
  p.form = p.what == 0 ? draws[0] % 8 : p.what == 1 ? draws[0] % 6 : p.what == 2 ? draws[0] % 8 : p.what == 3 ? draws[0] % 2 : draws[0] % 6;
  if (p.what == 1 || p.what == 4) p.src = make_source(draws[1], p.form == 4 ? 1 + draws[1] % 5 : 1 + draws[1] % (cap_hi + 4), s);
  if (set.trace) {
    printf("a failure at point %ld of a %s, form %d, key %d, value %d, pairs%s | cap=%zu order=[%s ]\n", point, whats[p.what], p.form, p.raw, p.val,
           show(p.src.ids).c_str(), s.cap, show(contents(s.order)).c_str());
    fflush(stdout);
  }
  if (g_sampling)
    sample("%s form %d key %d pairs [%s ] into cap %zu [%s ] failing at point %ld; ", whats[p.what], p.form, p.raw, show(p.src.ids).c_str(), s.cap,
           show(contents(s.order)).c_str(), point);
  // everything passed to the operation exists before
  u64 live_keys = 0, live_vals = 0;
  int thrown = 0;
  bool fired = false;
  {
    K key = mk(p.raw);
    V value = mv(p.val);
    V spare_value = mv(p.val);
    Pairs pairs = to_pairs(p.src);
    const Pairs& cpairs = pairs;
    auto h = T::hash(fn);
    auto e = T::eq(fn);
    C& c = *s.c;
    const C& cc = c;
    auto go = [&](auto f) {
      live_keys = g_tracked[0].live;
      live_vals = g_tracked[1].live;
      g_fault = FaultState();
      g_fault.kinds = FK_ALLOC | FK_COPY | FK_ASSIGN | FK_CALLBACK | FK_CTOR;
      g_fault.countdown = point;
      g_fault.armed = true;
      try {
        f();
      } catch (const InjectedFault&) {
        thrown = 1;
      } catch (const std::bad_alloc&) {
        thrown = 2;
      } catch (const LRU::Error::KeyNotFound&) {
        thrown = 3;
      } catch (const LRU::Error::KeyExpired&) {
        thrown = 3;
      } catch (const std::exception&) {
        thrown = 4;
      }
      g_fault.armed = false;
      fired = g_fault.fired;
    };
    if (p.what == 0) {
      switch (p.form) {
        case 0: go([&] { c.insert(key, value); }); break;
        case 1: go([&] { c.insert(std::move(key), std::move(value)); }); break;
        case 2: go([&] { c.emplace(key, value); }); break;
        case 3: go([&] { c.emplace(std::move(key), std::move(value)); }); break;
        case 4: go([&] { c.emplace(key, std::move(value)); }); break;
        case 5: go([&] { c.emplace(static_cast<const K&>(key), static_cast<const V&>(value)); }); break;
        case 6:
          if constexpr (T::tval && T::tkey) {
            int kh = p.raw / 1000, kl = p.raw % 1000, vh = p.val / 1000, vl = p.val % 1000;
            go([&] { c.emplace(std::piecewise_construct, std::forward_as_tuple(kh, kl), std::forward_as_tuple(vh, vl)); });
          } else {
            go([&] { c.emplace(std::piecewise_construct, std::forward_as_tuple(key), std::forward_as_tuple(value)); });
          }
          break;
        default: go([&] { c.emplace(static_cast<const K&>(key), std::move(spare_value)); }); break;
      }
    } else if (p.what == 1) {
      switch (p.form) {
        case 0: go([&] { c.insert(pairs); }); break;
        case 1: go([&] { c.insert(cpairs); }); break;
        case 2: go([&] { c.insert(pairs.begin(), pairs.end()); }); break;
        case 3: go([&] { c.insert(std::move(pairs)); }); break;
        case 4: with_list(p.src, [&](IL l) { go([&] { c.insert(l); }); }); break;
        default: { const auto* b = cpairs.data(); go([&] { c.insert(b, b + cpairs.size()); }); break; }
      }
    } else if (p.what == 2) {
      switch (p.form) {
        case 0: go([&] { (void)c.contains(key); }); break;
        case 1: go([&] { (void)cc.contains(key); }); break;
        case 2: go([&] { (void)c.find(key); }); break;
        case 3: go([&] { (void)cc.find(key); }); break;
        case 4: go([&] { (void)c.lookup(key); }); break;
        case 5: go([&] { (void)cc.lookup(key); }); break;
        case 6: go([&] { (void)c[key]; }); break;
        default: go([&] { (void)cc[key]; }); break;
      }
    } else if (p.what == 3) {
      switch (p.form) {
        case 0: go([&] { C copy(cc); }); break;
        default: go([&] { C copy(c); }); break;
      }
    } else {
      auto build = [&](auto... d) {
        switch (p.form) {
          case 0: go([&] { C built(d..., cap, pairs, h, e); }); break;
          case 1: go([&] { C built(d..., pairs.begin(), pairs.end(), h, e); }); break;
          case 2: go([&] { C built(d..., std::move(pairs), h, e); }); break;
          case 3: go([&] { C built(d..., cap, cpairs.begin(), cpairs.end(), h, e); }); break;
          case 4: with_list(p.src, [&](IL l) { go([&] { C built(d..., cap, l, h, e); }); }); break;
          default: go([&] { C built(d..., cap, std::move(pairs), h, e); }); break;
        }
      };
      if constexpr (T::timed) {
        auto d = std::chrono::duration_cast<typename T::Duration>(std::chrono::nanoseconds(ttl));
        build(d);
      } else {
        build();
      }
    }
    if (!fired) {
      // the whole operation was gone through: nothing to judge here
      VP_CHK(thrown == 0 || thrown == 3, "FAULT", "a %s without a failure threw (%d)", whats[p.what], thrown);
      count("operations_enumerated_to_the_end");
      return false;
    }
    out(static_cast<u64>(p.what * 16 + p.form));
    out(static_cast<u64>(point));
    out(static_cast<u64>(g_fault.fired_kind));
    switch (g_fault.fired_kind) {
      case FK_ALLOC: ev("failures_of_allocation"); break;
      case FK_COPY: ev("failures_of_copy"); break;
      case FK_ASSIGN: ev("failures_of_assignment"); break;
      case FK_CTOR: ev("failures_of_construction"); break;
      default: ev("failures_of_callback"); break;
    }
    static const char* const names[] = {"failures_in_stores", "failures_in_bulk_insertions", "failures_in_lookups", "failures_in_copies", "failures_in_bulk_constructions"};
    count(names[p.what]);
    VP_CHK(thrown != 0, "FAULT", "the exception thrown inside a %s did not come out of it", whats[p.what]);
    VP_CHK(thrown == (g_fault.fired_kind == FK_ALLOC ? 2 : 1), "FAULT", "another exception came out of a %s than the one thrown inside (%d)", whats[p.what], thrown);
    if (p.what >= 3) {
      VP_CHK(!T::tkey || g_tracked[0].live <= live_keys, "FAULT", "a failed %s left %lld key objects", whats[p.what], (long long)(g_tracked[0].live - live_keys));
      VP_CHK(!T::tval || g_tracked[1].live <= live_vals, "FAULT", "a failed %s left %lld value objects", whats[p.what], (long long)(g_tracked[1].live - live_vals));
    }
  }
  if (p.what >= 3) {
    auto obs = observe(s, whats[p.what]);
    if (obs != contents(s.order))
      fail("FAULT", strf("a failed %s changed another cache: it holds%s instead of%s", whats[p.what], show(obs).c_str(), show(contents(s.order)).c_str()));
    VP_CHK(log.empty(), "FAULT", "a failed %s ran callbacks", whats[p.what]);
  } else {
    after_failure(s, p, whats[p.what]);
  }
  // every key is found, or not found, as iteration says: oldest first, so that
  // the order stays what it is
  if (rng.chance(2, 3)) {
    std::vector<int> keys;
    for (auto& e : s.order) keys.push_back(e.cls);
    int api = rng.below(8);
    if (rng.chance(1, 2) && p.what < 3) {
      do_lookup(s, p.raw, api, false, false);
      if (rng.chance(2, 3)) keys.clear();
    }
    for (int k : keys) do_lookup(s, to_raw(s, k, rng.below(3)), rng.below(8), false, false);
    if (!keys.empty())
      for (int i = 0; i < 4; ++i) do_lookup(s, rng.below(universe), rng.below(8), false, false);
  }
  touched = ~0ull;
  audit(true);
  return true;
}

bool run_fault(long point) {
  log.reserve(256);
  cap_lo = 1;
  bool large = rng.chance(1, 20);
  cap_hi = large ? 8 + rng.below(30) : 2 + rng.below(5);
  universe = cap_hi + 2 + rng.below(5);
  int nslots = 1 + rng.below(2);
  audit_mode = 2;
  slots.resize(static_cast<std::size_t>(nslots));
  handles.reserve(16);
  for (int i = 0; i < nslots; ++i) {
    Op op{O_RECREATE, i, 0, static_cast<int>(rng.next() & 0xffffff), static_cast<int>(rng.next() & 0xffffff),
          static_cast<int>(rng.next() & 0xffffff), static_cast<int>(rng.next() & 0xffffff), 1};
    op_recreate(op);
  }
  auto some = [&](int n) {
    for (int i = 0; i < n; ++i) {
      Op op = draw_op();
      if (set.trace) { printf("%s\n", describe(op).c_str()); fflush(stdout); }
      apply(op);
      expect_no_callbacks();
      ++opno;
      g_status->op = opno;
    }
  };
  some(large ? rng.in(20, 120) : rng.in(2, 22));
  if (!armed_operation(point)) return false;
  some(rng.in(0, 12));
  // A second failure. If it does not occur, the model does not know what the
  // operation did.
  if (rng.chance(1, 3) && !armed_operation(rng.below(12))) return true;
  some(rng.in(0, 12));
  touched = ~0ull;
  audit(true);
  finish();
  return true;
}
