// Part of class World: comparison of the whole observable state with the model.

const char* override_kind = nullptr;
const char* kd(const char* kind) const { return override_kind ? override_kind : kind; }

bool can_read(const Slot& s) const { return s.c && !s.limbo; }

template <typename It>
void check_entry(Slot& s, It& it, const Ent& e, const char* kind, const char* how) {
  VP_CHK(cls(s, kid(it->first)) == e.cls, kind, "%s: entry has key %d, expected %d", how, kid(it->first), e.cls);
  VP_CHK(vid(it->second) == e.val, kind, "%s: key %d has value %d, expected %d", how, e.cls, vid(it->second), e.val);
}

void check_address(Ent& e, const void* k, const void* v) {
  if (!e.vaddr) {
    e.kaddr = k;
    e.vaddr = v;
    return;
  }
  VP_CHK(e.vaddr == v, "HANDLE", "the value object of key %d was replaced while its entry stayed", e.cls);
  VP_CHK(e.kaddr == k, "HANDLE", "the key object of key %d was replaced while its entry stayed", e.cls);
}

void audit_size(Slot& s) {
  const C& c = *s.c;
  VP_CHK(c.size() == s.order.size(), kd("SIZE"), "size() is %zu, %zu entries are stored", c.size(), s.order.size());
  VP_CHK(c.capacity() == s.cap, kd("SIZE"), "capacity() is %zu instead of %zu", c.capacity(), s.cap);
  VP_CHK(c.is_empty() == s.order.empty(), kd("SIZE"), "is_empty() is wrong");
  VP_CHK(c.is_full() == (s.order.size() == s.cap), kd("SIZE"), "is_full() is wrong");
  VP_CHK(c.space_left() == s.cap - s.order.size(), kd("SIZE"), "space_left() is wrong");
}

void audit_contents(Slot& s) {
  C& c = *s.c;
  // ordered, from least to most recently used
  std::size_t i = 0;
  // first whether the set of keys is right, then whether their order is
  std::vector<int> seen;
  for (auto it = c.ordered_begin(); it != c.ordered_end(); ++it) {
    VP_CHK(i <= s.order.size(), kd("CONTENT"), "ordered iteration yields more than the %zu stored entries",
           s.order.size());
    seen.push_back(cls(s, kid(it->first)));
    ++i;
  }
  VP_CHK(i == s.order.size(), kd("CONTENT"), "ordered iteration yields %zu entries, %zu are stored", i,
         s.order.size());
  {
    std::vector<int> a = seen, b;
    for (auto& e : s.order) b.push_back(e.cls);
    std::sort(a.begin(), a.end());
    std::sort(b.begin(), b.end());
    if (a != b) {
      std::string text = "stored keys are";
      for (int k : a) text += strf(" %d", k);
      text += ", expected";
      for (int k : b) text += strf(" %d", k);
      fail(kd("CONTENT"), text);
    }
  }
  for (i = 0; i < seen.size(); ++i)
    if (seen[i] != s.order[i].cls) {
      std::string text = "order of use (oldest first) is";
      for (int k : seen) text += strf(" %d", k);
      text += ", expected";
      for (auto& e : s.order) text += strf(" %d", e.cls);
      fail(kd("ORDER"), text);
    }
  i = 0;
  for (auto it = c.ordered_begin(); it != c.ordered_end(); ++it, ++i) {
    Ent& e = s.order[i];
    VP_CHK(vid(it->second) == e.val, kd("VAL"), "key %d has value %d, expected %d", e.cls, vid(it->second), e.val);
    check_address(e, std::addressof(it->first), std::addressof(it->second));
  }
  // unordered: the same entries once each
  std::size_t n = 0;
  u64 sum = 0, want = 0;
  const C& cc = c;
  for (auto it = cc.unordered_begin(); it != cc.unordered_end(); ++it) {
    VP_CHK(n < s.order.size(), kd("CONTENT"), "unordered iteration yields more than the %zu stored entries",
           s.order.size());
    int k = cls(s, kid(it->first));
    sum += mix(static_cast<u64>(k), static_cast<u64>(vid(it->second)));
    ++n;
  }
  for (auto& e : s.order) want += mix(static_cast<u64>(e.cls), static_cast<u64>(e.val));
  VP_CHK(n == s.order.size(), kd("CONTENT"), "unordered iteration yields %zu entries, %zu are stored", n,
         s.order.size());
  VP_CHK(sum == want, kd("CONTENT"), "unordered iteration yields other entries than the ordered one");
}

void audit_settings(Slot& s) {
  const C& c = *s.c;
  if constexpr (T::fn) {
    VP_CHK(c.hash_function().c.tag == s.fn.tag && c.hash_function().c.n == s.fn.n, "FN",
           "hash_function() is not the supplied object (tag %d, expected %d)", c.hash_function().c.tag, s.fn.tag);
    VP_CHK(c.key_equal().c.tag == s.fn.tag && c.key_equal().c.n == s.fn.n, "FN",
           "key_equal() is not the supplied object (tag %d, expected %d)", c.key_equal().c.tag, s.fn.tag);
  }
  VP_CHK(c.is_monitoring() == (s.st != nullptr), "STATSREG", "is_monitoring() is %d, expected %d",
         int(c.is_monitoring()), int(s.st != nullptr));
  VP_CHK(c.shared_stats() == (s.st ? s.st->obj() : nullptr), "STATSREG",
         "another statistics object is registered than expected");
  if (s.st) VP_CHK(&c.stats() == s.st->obj().get(), "STATSREG", "stats() is not the registered object");
  VP_CHK(c.hit_callbacks().size() == s.cbs[0].size() && c.miss_callbacks().size() == s.cbs[1].size() &&
             c.access_callbacks().size() == s.cbs[2].size(),
         "CBREG", "%zu/%zu/%zu hit/miss/access callbacks are registered, expected %zu/%zu/%zu",
         c.hit_callbacks().size(), c.miss_callbacks().size(), c.access_callbacks().size(), s.cbs[0].size(),
         s.cbs[1].size(), s.cbs[2].size());
}

void audit_slot(std::size_t i) {
  Slot& s = slots[i];
  if (!can_read(s)) return;
  override_kind = (touched >> i) & 1 ? nullptr : "ISOL";
  audit_size(s);
  audit_contents(s);
  override_kind = nullptr;
  audit_settings(s);
  expect_no_callbacks();
}

void audit_lifetimes() {
  if constexpr (T::tval) {
    u64 want = 0;
    for (auto& s : slots)
      if (s.c) want += s.limbo ? s.c->size() : s.order.size();
    VP_CHK(g_tracked[1].live == want, "LIFE", "%llu value objects are alive, %llu entries are stored",
           (unsigned long long)g_tracked[1].live, (unsigned long long)want);
  }
  if constexpr (T::tkey) {
    bool unknown = false;
    for (auto& s : slots)
      if (s.c && s.limbo && s.c->size() > 0) unknown = true;
    if (!unknown) {
      for (TrackedBase* k = g_tracked[0].head; k; k = k->next) {
        int id = *k->payload;
        bool ok = false;
        for (auto& s : slots)
          if (s.c && !s.limbo && id >= 0 && find_ent(s, cls(s, id)) >= 0) ok = true;
        for (auto& m : all_stats)
          if (m->keys.count(id)) ok = true;
        VP_CHK(ok, "LIFE", "a key object %d is alive although no such key is stored", id);
      }
    }
  }
  count("lifetime_audits");
}

void audit_expiry(Slot& s) {
  if constexpr (T::timed) {
    const C& c = *s.c;
    bool all = true;
    for (auto& e : s.order) {
      bool x = expired(s, e);
      if (!x) all = false;
      VP_CHK(c.has_expired(mk(e.cls)) == x, "EXPQ", "has_expired(%d) is %d, age %lld of %lld ns", e.cls, int(!x),
             (long long)(now() - e.stamp), (long long)s.ttl);
      count(x ? "expired_entries_seen" : "live_entries_seen");
    }
    VP_CHK(c.all_expired() == all, "EXPQ", "all_expired() is %d", int(!all));
  } else {
    (void)s;
  }
}

// The whole state hash, for the count of distinct states.
void note_state() {
  u64 h = 3;
  for (auto& s : slots) {
    h = mix(h, s.c ? s.limbo ? 1 : 2 : 0);
    h = mix(h, s.cap);
    for (auto& e : s.order) {
      h = mix(h, static_cast<u64>(e.cls));
      if (T::timed) h = mix(h, expired(s, e));
    }
    h = mix(h, s.st ? 1 : 0);
  }
  if (g_cov && g_cov->states.size() < 400000) {
    i64 blocks = g_live_blocks;
    g_cov->states.insert(h);
    g_live_blocks = blocks;
  }
}

void audit_handles() {
  for (auto& h : handles) check_handle(h, false);
}

void audit(bool full) {
  for (std::size_t i = 0; i < slots.size(); ++i) audit_slot(i);
  touched = 0;
  audit_lifetimes();
  for (auto& m : all_stats) check_stats(*m);
  if (full) {
    audit_handles();
    for (auto& s : slots)
      if (can_read(s)) audit_expiry(s);
    expect_no_callbacks();
    for (auto& m : all_stats) check_stats(*m);
    count("full_audits");
  }
  count("audits");
  note_state();
}

// One held reference and the iterators held with it.
void check_handle(Handle& h, bool walk) {
  int i = handle_ent(h);
  if (i < 0) return;
  Slot& s = slots[static_cast<std::size_t>(h.slot)];
  Ent& e = s.order[static_cast<std::size_t>(i)];
  VP_CHK(vid(*h.ref) == e.val, "HANDLE", "a held reference to the value of key %d shows %d instead of %d", e.cls,
         vid(*h.ref), e.val);
  VP_CHK(vid(*h.cref) == e.val, "HANDLE", "a held const reference to the value of key %d shows %d instead of %d",
         e.cls, vid(*h.cref), e.val);
  count("held_references_checked");
  if (!h.iters) return;
  bool live = !expired(s, e);
  check_entry(s, h.ui, e, "HANDLE", "held unordered iterator");
  check_entry(s, h.uci, e, "HANDLE", "held unordered const iterator");
  check_entry(s, h.oi, e, "HANDLE", "held ordered iterator");
  check_entry(s, h.oci, e, "HANDLE", "held ordered const iterator");
  VP_CHK(cls(s, kid((*h.ui).key())) == e.cls && vid((*h.oi).value()) == e.val, "HANDLE", "held iterator: * is wrong");
  if (live) {
    VP_CHK(cls(s, kid(h.ui.key())) == e.cls && vid(h.ui.value()) == e.val, "HANDLE", "held unordered iterator: key()/value()");
    VP_CHK(cls(s, kid(h.oi.key())) == e.cls && vid(h.oi.value()) == e.val, "HANDLE", "held ordered iterator: key()/value()");
    VP_CHK(cls(s, kid(h.uci.key())) == e.cls && vid(h.uci.value()) == e.val, "HANDLE", "held unordered const iterator: key()/value()");
    VP_CHK(cls(s, kid(h.oci.key())) == e.cls && vid(h.oci.value()) == e.val, "HANDLE", "held ordered const iterator: key()/value()");
    VP_CHK(s.c->is_valid(h.ui) && s.c->is_valid(h.oi) && s.c->is_valid(h.uci) && s.c->is_valid(h.oci), "HANDLE",
           "a held iterator to key %d is not valid", e.cls);
  } else {
    // they were dereferenced while the entry was live
    auto all = [&](auto& it, const char* what) {
      VP_CHK(thrown_by([&] { (void)it.key(); }) == 2 && thrown_by([&] { (void)it.value(); }) == 2 && thrown_by([&] { (void)it.entry(); }) == 2,
             "EXPQ", "key(), value() or entry() of a %s to an expired entry does not throw KeyExpired", what);
    };
    all(h.ui, "held unordered iterator");
    all(h.uci, "held unordered const iterator");
    all(h.oi, "held ordered iterator");
    all(h.oci, "held ordered const iterator");
    VP_CHK(!s.c->is_valid(h.ui) && !s.c->is_valid(h.oi) && !s.c->is_valid(h.uci) && !s.c->is_valid(h.oci), "EXPQ",
           "a held iterator to the expired key %d is valid", e.cls);
    count("held_iterators_to_expired_entries");
  }
  VP_CHK(h.oi == h.ui && h.ui == h.oi && h.oci == h.uci && h.uci == h.oci, "HANDLE", "held ordered and unordered iterator to key %d differ", e.cls);
  count("held_iterators_checked");
  if (!walk) return;
  // from here the neighbours are those of the present order
  {
    OI it = h.oi;
    for (std::size_t j = static_cast<std::size_t>(i) + 1; j <= s.order.size(); ++j) {
      if (j & 1) ++it; else it++;
      if (j == s.order.size()) {
        VP_CHK(it == s.c->ordered_end(), "HANDLE", "walking on from a held iterator does not reach the end");
      } else {
        VP_CHK(it != s.c->ordered_end(), "HANDLE", "walking on from a held iterator ends too early");
        check_entry(s, it, s.order[j], "HANDLE", "successor of a held iterator");
      }
    }
  }
  {
    OCI it = h.oci;
    for (int j = i - 1; j >= 0; --j) {
      if (j & 1) --it; else it--;
      check_entry(s, it, s.order[static_cast<std::size_t>(j)], "HANDLE", "predecessor of a held iterator");
    }
    VP_CHK(it == s.c->ordered_cbegin(), "HANDLE", "walking back from a held iterator does not reach the start");
  }
  ev("held_iterator_walks");
}
