------------------------------- MODULE LineMem -------------------------------
(***************************************************************************)
(* The design of lines over shared memory: a line is a window (offset,     *)
(* length, capacity) on an array; appending writes into spare capacity     *)
(* when there is some.  Checked to refine the value semantics of LineEdit: *)
(* whatever is done, every live line and ring reads as the value semantics *)
(* says.  Defect switches re-enable the sharing this library once had.     *)
(***************************************************************************)
EXTENDS LineEdit, FiniteSets, TLC
CONSTANTS Depth, MaxLen, MaxHandles, Defect
VARIABLES mem,   \* array number -> cells
          hs,    \* handle -> [a, off, len, cap, ring]
          val,   \* handle -> the value it must have
          n
vars == <<mem, hs, val, n>>
Pts == {<<0, 0>>, <<9, 0>>}
Junk == <<5, 5>>
Read(x) == [k \in 1..x.len |-> mem[x.a][x.off + k]]
Init == \E s \in [1..2 -> Pts] : \E spare \in 0..2 :
          /\ mem = <<s \o [k \in 1..spare |-> Junk]>>
          /\ hs = <<[a |-> 1, off |-> 0, len |-> 2, cap |-> 2 + spare, ring |-> FALSE]>>
          /\ val = <<s>> /\ n = 0
Fresh(s, spare) == [cells |-> s \o [k \in 1..spare |-> Junk], len |-> Len(s)]
\* the memory and window after putting s into window x, reusing its array if it fits
Put(x, s) == IF Len(s) <= x.cap
             THEN <<[mem EXCEPT ![x.a] = [k \in DOMAIN @ |-> IF k > x.off /\ k <= x.off + Len(s) THEN s[k - x.off] ELSE @[k]]],
                    [x EXCEPT !.len = Len(s)]>>
             ELSE <<Append(mem, s \o [k \in 1..2 |-> Junk]), [x EXCEPT !.a = Len(mem) + 1, !.off = 0, !.len = Len(s), !.cap = Len(s) + 2]>>
Edit(j, r) == /\ ~hs[j].ring /\ Len(r[1]) <= MaxLen
              /\ LET p == Put(hs[j], r[1]) IN mem' = p[1] /\ hs' = [hs EXCEPT ![j] = p[2]]
              /\ val' = [val EXCEPT ![j] = r[1]]
\* a derived piece with an array of its own, as long as there is room for another handle
Own(s, ring) == [a |-> Len(mem) + 1, off |-> 0, len |-> Len(s), cap |-> Len(s), ring |-> ring]
Split(j, k) ==
  /\ Len(hs) + 2 <= MaxHandles /\ k >= 0 /\ hs[j].len > k /\ ~hs[j].ring
  /\ LET s == Read(hs[j]) IN
     /\ val' = val \o <<Left(val[j], k), Right(val[j], k)>>
     /\ IF Defect = "splitshare"
        THEN /\ mem' = mem
             /\ hs' = hs \o <<[hs[j] EXCEPT !.len = k + 1], [hs[j] EXCEPT !.off = @ + k, !.len = @ - k, !.cap = @ - k]>>
        ELSE /\ mem' = mem \o <<Left(s, k), Right(s, k)>>
             /\ hs' = hs \o <<Own(Left(s, k), FALSE), [Own(Right(s, k), FALSE) EXCEPT !.a = @ + 1]>>
ToRing(j) ==
  /\ Len(hs) + 1 <= MaxHandles /\ hs[j].len >= 2 /\ ~hs[j].ring
  /\ LET s == Ring(Read(hs[j])) IN
     /\ val' = Append(val, Ring(val[j]))
     /\ IF Defect = "ringshare"
        THEN LET p == Put(hs[j], s) IN mem' = p[1] /\ hs' = Append(hs, [p[2] EXCEPT !.ring = TRUE])
        ELSE mem' = Append(mem, s) /\ hs' = Append(hs, Own(s, TRUE))
Next == /\ n < Depth /\ n' = n + 1
        /\ \E j \in DOMAIN hs :
             \/ \E p \in Pts : Edit(j, DoAppend(Read(hs[j]), p))
             \/ \E p \in Pts, k \in -1..MaxLen : Edit(j, DoSet(Read(hs[j]), k, p)) \/ Edit(j, DoInsert(Read(hs[j]), k, p))
             \/ \E k \in -1..MaxLen : Edit(j, DoDelete(Read(hs[j]), k)) \/ Split(j, k)
             \/ Edit(j, <<Rev(Read(hs[j])), 0>>)
             \/ ToRing(j)
Refines == \A j \in DOMAIN hs : Read(hs[j]) = val[j]
Closed == \A j \in DOMAIN hs : hs[j].ring => PtEq(val[j][1], val[j][Len(val[j])])
=============================================================================
