----------------------------- MODULE IndexTrace -----------------------------
(***************************************************************************)
(* Conformance of the spatial index: recorded histories replayed against   *)
(* the bag of SpatialIndex.  After every mutation the driver lists what a  *)
(* search of the whole plane returns; after a rejected step the bag is     *)
(* taken over from that list, so that later steps are judged on their own. *)
(***************************************************************************)
EXTENDS SpatialIndex, Hist
VARIABLES h, i, bag, ids, q   \* q: queries since the content was last listed
vars == <<h, i, bag, ids, q>>
Ev(n, k) == Trace[n].ev[k]
Box == Ev(h, 1).boxes
N == Len(Box)
Cap == Ev(h, 1).max

Init == h \in DOMAIN Trace /\ i = 0 /\ bag = <<>> /\ ids = <<>> /\ q = FALSE

Mutating == {"build", "ins", "insr", "del", "delc", "delid", "ups"}
Filtered(s, n) == SelectSeq(s, LAMBDA x : x \in 1..n)
\* identifiers the index made up itself belong to one stored object each (nids: <<object, identifier>>)
Unique(e, after, known) ==
  LET objs == {e.nids[k][1] : k \in DOMAIN e.nids}
      names == {e.nids[k][2] : k \in DOMAIN e.nids} IN
  /\ Cardinality(names) >= Cardinality(objs)
  /\ \A o \in Stored(after) \ objs : known[o] \notin names
\* the verdict on a mutation whose listed content is after
Judge(e, after) ==
  LET bad(ok, t) == IF ok THEN {} ELSE t IN
  CASE e.op = "build" -> bad(after = BagOf(e.give, N), {"R01", "R06"}) \cup bad(e.kept = 1, {"R06", "G09"})
    [] e.op \in {"ins", "insr"} -> bad(after = Inserted(bag, e.o), {"R01", "R06"})
    [] e.op = "del" -> bad(DeleteOK(bag, e.o, e.r, after), {"R02"})
         \cup bad(after \in {bag, Removed(bag, e.o)}, {"R01", "R06"})
    [] e.op = "delc" -> bad(DeleteCmpOK(bag, Box, e.o, Rng(e.m), e.r, after), {"R02"})
         \cup bad(after = bag \/ \E x \in Stored(bag) : after = Removed(bag, x), {"R01", "R06"})
    [] e.op = "delid" -> bad(DeleteIdOK(bag, ids, e.id, e.r, after), {"R02"})
         \cup bad(\A o \in 1..N : after[o] <= bag[o] /\ (ids[o] # e.id => after[o] = bag[o]), {"R01", "R06"})
    [] OTHER -> bad(after = Upserted(bag, ids, e.os), {"R03"})
         \cup bad(\A o \in 1..N : ids[o] \notin {ids[e.os[k]] : k \in DOMAIN e.os} => after[o] = bag[o], {"R01", "R06"})

Crash(e) == CASE e.op \in {"build", "ins", "insr"} -> {"R06"}
              [] e.op \in {"del", "delc", "delid"} -> {"R02", "R06"}
              [] e.op \in {"ups", "size", "byid"} -> {"R03"}
              [] e.op = "nn" -> {"R04"}
              [] e.op = "shape" -> {"R05"}
              [] e.op = "par" -> {"R07"}
              [] OTHER -> {"R01"}

Query(e) ==
  LET bad(ok, t) == IF ok THEN {} ELSE t IN
  CASE e.op = "search" -> bad(SearchOK(bag, Box, e.q, 1..N, e.res), {"R01"})
    [] e.op = "cond" -> bad(e.narg = 1 /\ SearchOK(bag, Box, e.q, Rng(e.m), e.res), {"R01"})
    [] e.op = "byid" -> bad(ByIdOK(bag, ids, e.id, e.res), {"R03"})
    [] e.op = "size" -> bad(e.r = BagSize(bag), {"R03"})
    [] e.op = "nn" -> bad(NearestOK(bag, Box, e.p, e.k, e.res), {"R04"})
    [] e.op = "shape" -> bad(ShapeOK(bag, Box, Cap, e.depth, e.nb), {"R05"})
    [] OTHER -> \* concurrent queries: each answer is what the query gives alone, in the same order
         bad(\A k \in DOMAIN e.qs : \A g \in DOMAIN e.qs[k].got : e.qs[k].got[g] = e.qs[k].alone, {"R07"})

Step ==
  /\ i < Len(Trace[h].ev)
  /\ i' = i + 1 /\ h' = h
  /\ LET e == Ev(h, i + 1) IN
     IF e.pn # 0 THEN Report(h, i + 1, Crash(e)) /\ UNCHANGED <<bag, ids, q>>
     ELSE IF e.op \in Mutating
     THEN LET after == BagOf(Filtered(e.c, N), N) strange == ~Known(e.c, N) IN
          /\ bag' = after /\ q' = FALSE
          /\ ids' = LET base == IF e.op = "build" THEN e.ids ELSE ids IN
                    IF e.op \in {"build", "insr"}
                    THEN [o \in 1..N |-> IF \E k \in DOMAIN e.nids : e.nids[k][1] = o
                                         THEN e.nids[CHOOSE k \in DOMAIN e.nids : e.nids[k][1] = o][2] ELSE base[o]]
                    ELSE base
          /\ Report(h, i + 1, (IF strange THEN {"R01", "R06"} ELSE {}) \cup Judge(e, after)
               \cup (IF e.op \in {"build", "insr"} /\ ~Unique(e, after, IF e.op = "build" THEN e.ids ELSE ids) THEN {"R06"} ELSE {}))
     ELSE IF e.op = "again"
     THEN /\ bag' = BagOf(Filtered(e.c, N), N) /\ q' = FALSE /\ ids' = ids
          /\ Report(h, i + 1, IF Known(e.c, N) /\ bag' = bag THEN {} ELSE {"R01", "R07"})
     ELSE UNCHANGED <<bag, ids>> /\ q' = TRUE /\ Report(h, i + 1, Query(e))
Next == Step
=============================================================================
