#include "world.hpp"

namespace vp {
thread_local u64 g_hash_calls = 0;
thread_local u64 g_eq_calls = 0;
thread_local std::vector<LogRec>* g_log = nullptr;

const char* const op_names[O_COUNT] = {
    "INSERT", "LOOKUP", "ERASE_KEY", "ERASE_UIT", "ERASE_OIT", "CLEAR", "SHRINK", "CAPACITY",
    "BULK_INSERT", "BULK_ASSIGN", "BULK_CONSTRUCT", "COPY_CTOR", "COPY_ASSIGN", "MOVE_CTOR",
    "MOVE_ASSIGN", "SWAP", "ITERATE", "ITER_WRITE", "FRONTBACK", "MONITOR", "STOP", "STATS",
    "KEYSTAT", "CB_ADD", "CB_CLEAR", "ADVANCE", "WALL", "EXPQ", "CLEAR_EXPIRED", "ALL_EXPIRED",
    "HOLD", "HUSE", "HDROP", "EQUAL", "EQ_REBUILD", "ALIAS", "MISUSE", "RECREATE", "DRAIN",
    "BURST", "RESET", "ENTRY"};

void settings_for(const std::string& p, Settings& s) {
  s.profile = p;
  int* w = s.weights;
  std::fill(w, w + O_COUNT, 0);
  // what every history contains
  w[O_INSERT] = 120;
  w[O_LOOKUP] = 100;
  w[O_ERASE_KEY] = 16;
  w[O_ERASE_UIT] = 5;
  w[O_ERASE_OIT] = 5;
  w[O_CLEAR] = 2;
  w[O_SHRINK] = 4;
  w[O_CAPACITY] = 5;
  w[O_BULK_INSERT] = 4;
  w[O_BULK_ASSIGN] = 2;
  w[O_BULK_CONSTRUCT] = 2;
  w[O_RECREATE] = 2;
  w[O_ITERATE] = 6;
  w[O_ITER_WRITE] = 4;
  w[O_FRONTBACK] = 3;
  w[O_ADVANCE] = 25;
  w[O_WALL] = 3;
  w[O_EXPQ] = 4;
  w[O_CLEAR_EXPIRED] = 3;
  w[O_ALL_EXPIRED] = 1;
  w[O_ALIAS] = 3;
  w[O_MISUSE] = 2;
  w[O_EQUAL] = 1;
  w[O_DRAIN] = 2;
  w[O_BURST] = 2;
  w[O_RESET] = 4;
  w[O_ENTRY] = 2;
  // Statistics, callbacks, copies and moves are there in every history, as what
  // they do to the rest must not depend on who watches.
  w[O_MONITOR] = 2;
  w[O_STOP] = 1;
  w[O_CB_ADD] = 2;
  w[O_CB_CLEAR] = 1;
  w[O_COPY_CTOR] = w[O_COPY_ASSIGN] = 1;
  w[O_MOVE_CTOR] = w[O_MOVE_ASSIGN] = w[O_SWAP] = 1;
  w[O_HOLD] = w[O_HUSE] = 2;
  w[O_HDROP] = 1;
  auto kinds = [&](const char* list) {
    std::istringstream in(list);
    std::string k;
    while (in >> k) s.kinds.insert(k);
  };
  auto copies = [&](int n) { w[O_COPY_CTOR] = n; w[O_COPY_ASSIGN] = n; };
  auto moves = [&](int n) { w[O_MOVE_CTOR] = n; w[O_MOVE_ASSIGN] = n; w[O_SWAP] = n; };
  const char* core = "RET VAL INSRES ERASERES SIZE CONTENT ORDER ";
  s.nontrivial = "evictions,hits,erasures";
  if (p == "C01") {
    kinds("RET VAL CONTENT ORDER TTL SIZE INSRES");
    w[O_DRAIN] = 8; w[O_BURST] = 4; w[O_EXPQ] = 6; w[O_EQUAL] = 3; w[O_ADVANCE] = 12;
    copies(2);
    s.nontrivial = "evictions";
    s.big = true;
  } else if (p == "C02") {
    kinds("RET VAL INSRES ERASERES CONTENT ERRTYPE SIZE");
    w[O_MISUSE] = 0; w[O_ERASE_KEY] = 30; w[O_ITER_WRITE] = 10; w[O_ADVANCE] = 6; w[O_ALIAS] = 8; w[O_BURST] = 3;
    copies(2);
    s.nontrivial = "hits";
    s.big = true;
  } else if (p == "C03") {
    kinds("SIZE CONTENT ORDER VAL INSRES RET");
    w[O_SHRINK] = 30; w[O_CAPACITY] = 35; w[O_CLEAR] = 10; w[O_DRAIN] = 8; w[O_RECREATE] = 5; w[O_BULK_ASSIGN] = 5; w[O_BULK_CONSTRUCT] = 5; w[O_ADVANCE] = 10;
    copies(2); moves(2);
    s.nontrivial = "trimmed_entries,evictions,zero_capacity_insertions";
    s.big = true;
  } else if (p == "C04") {
    kinds("ITER FRONTBACK CONTENT ORDER VAL");
    w[O_ITERATE] = 80; w[O_FRONTBACK] = 20; w[O_ITER_WRITE] = 15; w[O_ADVANCE] = 12; w[O_HOLD] = 6; w[O_HUSE] = 8; w[O_HDROP] = 2;
    copies(2);
    s.nontrivial = "iterations";
  } else if (p == "C05") {
    kinds("HANDLE VAL ITER ORDER CONTENT");
    w[O_HOLD] = 50; w[O_HUSE] = 60; w[O_HDROP] = 8; w[O_BURST] = 4; w[O_CAPACITY] = 10; w[O_CLEAR] = 1; w[O_BULK_CONSTRUCT] = 1; w[O_RECREATE] = 1; w[O_DRAIN] = 1; w[O_ALIAS] = 6;
    copies(2);
    s.nontrivial = "held_iterator_walks,writes_through_handles";
    s.big = true;
  } else if (p == "C06") {
    kinds(core);
    kinds("COPYEQ STATSREG CBREG STATS KEYSTATS CALLBACK TTL EXPQ EXPRES ISOL FN HANDLE");
    copies(25);
    w[O_MONITOR] = 6; w[O_STOP] = 2; w[O_CB_ADD] = 6; w[O_CB_CLEAR] = 2; w[O_EQUAL] = 8; w[O_HOLD] = 6; w[O_HUSE] = 8; w[O_HDROP] = 2; w[O_CLEAR] = 4;
    s.nslots = 3;
    s.nontrivial = "copies,copy_assignments,self_assignments";
    s.big = true;
  } else if (p == "C07") {
    kinds(core);
    kinds("MOVE HANDLE TTL EXPQ EXPRES FN BULKCAP LIFE");
    moves(25); copies(3);
    w[O_HOLD] = 12; w[O_HUSE] = 15; w[O_HDROP] = 2; w[O_RESET] = 20; w[O_MONITOR] = 5; w[O_CB_ADD] = 8;
    s.nslots = 3;
    s.nontrivial = "moves,swaps";
  } else if (p == "C08") {
    kinds(core);
    kinds("BULKRES BULKCAP ARGS");
    w[O_BULK_INSERT] = 60; w[O_BULK_ASSIGN] = 35; w[O_BULK_CONSTRUCT] = 45; w[O_INSERT] = 60; w[O_LOOKUP] = 60; w[O_ADVANCE] = 6;
    copies(2);
    s.nontrivial = "bulk_insertions,bulk_constructions,range_assignments";
  } else if (p == "C09") {
    kinds("TTL RET VAL ORDER EXPQ EXPRES CONTENT INSRES CALLBACK SIZE ISOL ERRTYPE");
    w[O_ADVANCE] = 90; w[O_WALL] = 15; w[O_EXPQ] = 20; copies(6); moves(5); w[O_CB_ADD] = 1;
    s.big = true;
    s.nontrivial = "expired_lookups,stored_expired_again";
  } else if (p == "C10") {
    kinds("EXPQ EXPRES CONTENT ORDER SIZE ERASERES ERRTYPE TTL VAL");
    w[O_HOLD] = 12; w[O_HUSE] = 12; w[O_HDROP] = 3;
    w[O_ADVANCE] = 90; w[O_WALL] = 5; w[O_EXPQ] = 60; w[O_CLEAR_EXPIRED] = 30; w[O_ALL_EXPIRED] = 30; w[O_ERASE_UIT] = 15; w[O_ERASE_OIT] = 15; copies(3); moves(3);
    s.big = true;
    s.nontrivial = "expired_queries,clear_expired_some,clear_expired_partial,all_expired_mixed,expired_erasures";
  } else if (p == "C11") {
    kinds("STATS STATSREG");
    w[O_MONITOR] = 25; w[O_STOP] = 6; w[O_STATS] = 20; w[O_ADVANCE] = 40; w[O_MISUSE] = 8; w[O_EXPQ] = 10; w[O_EQUAL] = 6; w[O_KEYSTAT] = 8; w[O_CB_ADD] = 2; w[O_HOLD] = 4; w[O_HUSE] = 4;
    copies(4); moves(1);
    s.big = true;
    s.nontrivial = "lookups_counted";
  } else if (p == "C12") {
    kinds("KEYSTATS STATS STATSREG");
    w[O_MONITOR] = 20; w[O_STOP] = 3; w[O_STATS] = 20; w[O_KEYSTAT] = 70; w[O_ADVANCE] = 25; w[O_EXPQ] = 4; w[O_MISUSE] = 8;
    copies(4);
    s.big = true;
    s.nontrivial = "monitored_keys_with_counts";
  } else if (p == "C13") {
    kinds("CALLBACK CBREG");
    w[O_CB_ADD] = 30; w[O_CB_CLEAR] = 10; w[O_ADVANCE] = 40; w[O_MISUSE] = 8; w[O_MONITOR] = 3; w[O_EXPQ] = 10; w[O_ALIAS] = 8; w[O_EQUAL] = 4; w[O_HOLD] = 4; w[O_HUSE] = 4;
    copies(4); moves(1);
    s.big = true;
    s.nontrivial = "lookups_with_callbacks";
  } else if (p == "C16") {
    kinds("");
    copies(8); moves(6);
    w[O_HOLD] = 10; w[O_HUSE] = 10; w[O_HDROP] = 3; w[O_MONITOR] = 4; w[O_STOP] = 2; w[O_KEYSTAT] = 4; w[O_CB_ADD] = 4; w[O_CB_CLEAR] = 2; w[O_ALIAS] = 20; w[O_MISUSE] = 15; w[O_EQ_REBUILD] = 3; w[O_EXPQ] = 12; w[O_BURST] = 3; w[O_BULK_INSERT] = 8; w[O_BULK_CONSTRUCT] = 6; w[O_BULK_ASSIGN] = 6; w[O_STATS] = 3;
    s.nontrivial = "evictions,hits,erasures,copies,moves,swaps,misuses,aliased_arguments";
    s.big = true;
  } else if (p == "C17") {
    kinds("LIFE HANDLE MOVE");
    copies(6); moves(8);
    w[O_CLEAR] = 6; w[O_SHRINK] = 10; w[O_CAPACITY] = 10; w[O_CLEAR_EXPIRED] = 8; w[O_BULK_ASSIGN] = 6; w[O_BULK_CONSTRUCT] = 5; w[O_RESET] = 10; w[O_ERASE_KEY] = 30;
    s.audit_mode = 0;
    s.nontrivial = "evictions,erasures,clears,trimmed_entries,updates";
  } else if (p == "C18") {
    s.similar_values = false;   // which values are stored tells how far a failed operation came
    kinds(core);
    kinds("FAULT LIFE LEAK STATS KEYSTATS CALLBACK TTL EXPQ EXPRES ISOL FN ERRTYPE EXCEPTION");
    copies(3); moves(1); w[O_CB_ADD] = 25; w[O_CB_CLEAR] = 1; w[O_MONITOR] = 6; w[O_BULK_INSERT] = 8; w[O_MISUSE] = 0;
    s.nontrivial = "failures_of_allocation,failures_of_copy,failures_of_assignment,failures_of_construction,failures_of_callback";
  } else if (p == "C19") {
    kinds("NOHASH");
    s.nontrivial = "repeated_lookups";
  } else if (p == "C20") {
    kinds(core);
    kinds("FN TTL EXPQ EXPRES ERRTYPE BULKRES HANDLE");
    copies(6); moves(8); w[O_RECREATE] = 6; w[O_BULK_CONSTRUCT] = 5; w[O_ERASE_KEY] = 30; w[O_LOOKUP] = 140;
    s.nontrivial = "hits,misses,evictions";
  } else if (p == "C21") {
    kinds(core);
    kinds("ISOL TTL EXPQ EXPRES STATS KEYSTATS CALLBACK HANDLE FN BULKRES BULKCAP LIFE COPYEQ STATSREG CBREG");
    copies(12); moves(4); w[O_MONITOR] = 5; w[O_CB_ADD] = 4; w[O_KEYSTAT] = 3;
    s.audit_mode = 0;
    s.nslots = 3;
    s.nontrivial = "evictions,hits,copies";
  } else if (p == "C22") {
    kinds(core);
    kinds("ERRTYPE EXPQ STATSREG CBREG");
    w[O_CB_ADD] = 4;
    w[O_MISUSE] = 120; w[O_CLEAR] = 10; w[O_MONITOR] = 6; w[O_STOP] = 4; w[O_EXPQ] = 15; w[O_ADVANCE] = 10; w[O_CAPACITY] = 12; w[O_RECREATE] = 8;
    s.nontrivial = "misuses";
  } else if (p == "C23") {
    kinds("EQ COPYEQ CONTENT ORDER");
    w[O_EQUAL] = 60; w[O_EQ_REBUILD] = 60; copies(10); w[O_ADVANCE] = 10; w[O_ITER_WRITE] = 8;
    s.nslots = 3;
    s.nontrivial = "equal_comparisons,equal_entries_other_order";
  } else if (p == "C25") {
    kinds("ENTRY INSRES ITER VAL");
    w[O_ENTRY] = 120; w[O_ITER_WRITE] = 20; w[O_ITERATE] = 12; w[O_ADVANCE] = 12; w[O_BULK_INSERT] = 8;
    copies(4); moves(3);
    s.nontrivial = "entries_viewed";
  } else {
    fprintf(stderr, "unknown profile %s\n", p.c_str());
    exit(2);
  }
}
}  // namespace vp
