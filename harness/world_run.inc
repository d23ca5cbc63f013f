// Part of class World: generation and execution of one case.

Op draw_op() {
  int total = 0;
  for (int w : set.weights) total += w;
  int x = rng.below(total), code = 0;
  while (x >= set.weights[code]) x -= set.weights[code++];
  auto big = [&] { return static_cast<int>(rng.next() & 0x3fffffff); };
  return Op{code, big(), big(), big(), big(), big(), big(), big()};
}

void apply(const Op& op) {
  if (op.code != O_INSERT && op.code != O_LOOKUP) ++seq;
  switch (op.code) {
    case O_INSERT: op_insert(op); break;
    case O_LOOKUP: op_lookup(op); break;
    case O_ERASE_KEY: op_erase_key(op); break;
    case O_ERASE_UIT: op_erase_uit(op); break;
    case O_ERASE_OIT: op_erase_oit(op); break;
    case O_CLEAR: op_clear(op); break;
    case O_SHRINK: op_shrink(op); break;
    case O_CAPACITY: op_capacity(op); break;
    case O_BULK_INSERT: op_bulk_insert(op); break;
    case O_BULK_ASSIGN: op_bulk_assign(op); break;
    case O_BULK_CONSTRUCT: op_bulk_construct(op); break;
    case O_COPY_CTOR: op_copy_ctor(op); break;
    case O_COPY_ASSIGN: op_copy_assign(op); break;
    case O_MOVE_CTOR: op_move_ctor(op); break;
    case O_MOVE_ASSIGN: op_move_assign(op); break;
    case O_SWAP: op_swap(op); break;
    case O_ITERATE: op_iterate(op); break;
    case O_ITER_WRITE: op_iter_write(op); break;
    case O_FRONTBACK: op_frontback(op); break;
    case O_MONITOR: op_monitor(op); break;
    case O_STOP: op_stop(op); break;
    case O_STATS: op_stats(op); break;
    case O_KEYSTAT: op_keystat(op); break;
    case O_CB_ADD: op_cb_add(op); break;
    case O_CB_CLEAR: op_cb_clear(op); break;
    case O_ADVANCE: if (T::timed) op_advance(op); break;
    case O_WALL: if (T::timed) op_wall(op); break;
    case O_EXPQ: op_expq(op); break;
    case O_CLEAR_EXPIRED: op_clear_expired(op); break;
    case O_ALL_EXPIRED: op_all_expired(op); break;
    case O_HOLD: op_hold(op); break;
    case O_HUSE: op_huse(op); break;
    case O_HDROP: op_hdrop(op); break;
    case O_EQUAL: op_equal(op); break;
    case O_EQ_REBUILD: op_eq_rebuild(op); break;
    case O_ALIAS: op_alias(op); break;
    case O_MISUSE: op_misuse(op); break;
    case O_RECREATE: op_recreate(op); break;
    case O_DRAIN: op_drain(op); break;
    case O_BURST: op_burst(op); break;
    case O_RESET: op_reset(op); break;
    case O_ENTRY: op_entry(op); break;
    default: break;
  }
}

std::string describe(const Op& op) {
  std::size_t i = static_cast<std::size_t>(op.s) % std::max<std::size_t>(1, slots.size());
  std::string r = strf("#%llu %s cache=%zu other=%zu k=%d v=%d a=%d b=%d c=%d", (unsigned long long)opno, op_names[op.code], i,
                       static_cast<std::size_t>(op.s2) % std::max<std::size_t>(1, slots.size()), op.k, op.v, op.a, op.b, op.c);
  if (i < slots.size()) {
    r += strf(" | before: cap=%zu order=[", slots[i].cap);
    for (auto& e : slots[i].order) r += strf(" %d=%d%s", e.cls, e.val, expired(slots[i], e) ? "(expired)" : "");
    r += slots[i].limbo ? " ] moved-from" : " ]";
  }
  return r;
}

// only: if not empty, the numbers of the operations to perform (for shrinking)
void run(const std::vector<int>* only) {
  log.reserve(64);
  int regime = rng.below(11);
  if (regime < 6) { cap_lo = 1; cap_hi = 6; universe = 4 + rng.below(9); }
  else if (regime < 8) { cap_lo = 1; cap_hi = 3; universe = 3 + rng.below(4); }
  else if (regime == 8 || (!set.big && rng.chance(1, 2))) { cap_lo = 5; cap_hi = 20; universe = 20 + rng.below(15); }
  else { cap_lo = 20; cap_hi = 150; universe = 100 + rng.below(150); }
  // Every size once or twice: keys are added all the time, and hardly ever many removed.
  const bool ladder = set.big && rng.chance(1, 25);
  if (ladder) { cap_lo = 25; cap_hi = 75; universe = 130; }
  int nslots = set.nslots ? set.nslots : 1 + rng.below(3);
  audit_mode = set.audit_mode >= 0 ? set.audit_mode : rng.below(3);
  slots.resize(static_cast<std::size_t>(nslots));
  handles.reserve(16);
  for (int i = 0; i < nslots; ++i) {
    Op op{O_RECREATE, i, 0, static_cast<int>(rng.next() & 0xffffff), static_cast<int>(rng.next() & 0xffffff),
          static_cast<int>(rng.next() & 0xffffff), static_cast<int>(rng.next() & 0xffffff), 1};
    op_recreate(op);
  }
  int nops = rng.in(set.ops_lo, set.ops_hi);
  if (rng.chance(1, 40)) nops *= 5;
  std::vector<Op> ops;
  if (ladder) nops = rng.in(120, 260);
  for (int i = 0; i < nops; ++i) {
    Op op = draw_op();
    if (ladder) {
      switch (op.code) {
        case O_CLEAR: case O_SHRINK: case O_CAPACITY: case O_BULK_ASSIGN: case O_BULK_CONSTRUCT: case O_RECREATE:
        case O_RESET: case O_DRAIN: case O_COPY_ASSIGN: case O_MOVE_ASSIGN:
          if (!rng.chance(1, 12)) op.code = O_INSERT;
          break;
        case O_CLEAR_EXPIRED: case O_ALL_EXPIRED:
          if (!rng.chance(1, 3)) op.code = O_INSERT;
          break;
        case O_ADVANCE: break;
        default:
          if (rng.chance(1, 3)) op.code = O_INSERT;
          break;
      }
      if (op.code == O_INSERT && rng.chance(2, 3)) op.k = 10 * i;
    }
    ops.push_back(op);
  }
  Rng audits(rng.next());
  for (int i = 0; i < nops; ++i) {
    bool audit_now = audit_mode == 0 || (audit_mode == 1 && audits.chance(1, 6));
    bool full = audits.chance(1, 3);
    if (only && !std::binary_search(only->begin(), only->end(), i)) continue;
    opno = static_cast<u64>(i);
    g_status->op = opno;
    const Op& op = ops[static_cast<std::size_t>(i)];
    if (g_sampling) {
      const Slot& s = slots[static_cast<std::size_t>(op.s) % slots.size()];
      sample("%s cache%d", op_names[op.code], slot_index(s));
      sample("[cap %zu:", s.cap);
      for (auto& e : s.order) sample(" %d=%d%s", e.cls, e.val, expired(s, e) ? "*" : "");
      sample("]; ");
    }
    if (set.trace) { printf("%s\n", describe(op).c_str()); fflush(stdout); }
    outcome_hash = mix(outcome_hash, static_cast<u64>(op.code));
    apply(op);
    expect_no_callbacks();
    count("operations");
    if (audit_now) audit(full);
  }
  opno = static_cast<u64>(nops);
  g_status->op = opno;
  touched = ~0ull;
  audit(true);
  finish();
}

// Use every cache to the end: what is left must behave as the model says.
void finish() {
  for (auto& s : slots) {
    touched = ~0ull;
    if (!can_read(s)) continue;
    if (s.order.size() > 60) continue;
    for (int i = 0; i < universe && i < 24; ++i) {
      if (rng.chance(1, 2)) continue;
      do_lookup(s, i, rng.below(8), false, false);
      if (rng.chance(1, 8)) audit_contents(s);
    }
    Op op{O_DRAIN, slot_index(s), 0, 0, 0, rng.below(3), rng.below(8), 0};
    op_drain(op);
    audit_contents(s);
  }
  // destroy the caches one by one while the others are still used
  while (!slots.empty()) {
    slots.back().c.reset();
    drop_handles(static_cast<int>(slots.size()) - 1, false);
    slots.pop_back();
    touched = 0;
    if (!slots.empty()) audit(false);
  }
  handles.clear();
  for (auto& m : all_stats) check_stats(*m);
  all_stats.clear();
  VP_CHK(!T::tval || g_tracked[1].live == 0, "LIFE", "%llu value objects outlive all caches", (unsigned long long)g_tracked[1].live);
  VP_CHK(!T::tkey || g_tracked[0].live == 0, "LIFE", "%llu key objects outlive all caches", (unsigned long long)g_tracked[0].live);
}
