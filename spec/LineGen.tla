------------------------------- MODULE LineGen -------------------------------
(***************************************************************************)
(* Histories of line editing and derivation for the driver to replay.      *)
(***************************************************************************)
EXTENDS LineEdit, FiniteSets, TLC, Json
CONSTANTS L, MaxHandles
VARIABLES val, ops, done
vars == <<val, ops, done>>
Coord == {-3, 0, 2, 3, 50}
Pt(x) == <<RandomElement(Coord), RandomElement(Coord)>>
Init == val = <<>> /\ ops = <<>> /\ done = FALSE
Log(op) == ops' = Append(ops, op) /\ done' = done
New(k, s, op) == val' = Append(val, [k |-> k, s |-> s]) /\ Log(op)
Room(n) == Len(val) + n <= MaxHandles
Of(ks) == {j \in DOMAIN val : val[j].k \in ks}
NewLine == Room(1) /\ \E k \in {RandomElement(0..5)} : \E s \in {[j \in 1..k |-> Pt(j)]} :
             New("line", s, <<"line", s, RandomElement(0..2)>>)
Ed(j, r, op) == val' = [val EXCEPT ![j].s = r[1]] /\ Log(op)
EditAny(j) == LET s == val[j].s IN \E k \in {RandomElement(-1..(Len(s) + 1))} : \E p \in {Pt(j)} :
  \/ Ed(j, DoAppend(s, p), <<"append", j, p>>)
  \/ Ed(j, DoSet(s, k, p), <<"set", j, k, p>>)
  \/ Ed(j, DoInsert(s, k, p), <<"ins", j, k, p>>)
  \/ Ed(j, DoDelete(s, k), <<"del", j, k>>)
  \/ Ed(j, <<Rev(s), 0>>, <<"rev", j>>)
Split(j) == /\ Room(2) /\ Len(val[j].s) > 0
            /\ \E k \in {RandomElement(0..(Len(val[j].s) - 1))} :
                 /\ val' = val \o <<[k |-> "line", s |-> Left(val[j].s, k)], [k |-> "line", s |-> Right(val[j].s, k)]>>
                 /\ Log(<<"split", j, k>>)
ToRing(j) == Room(1) /\ Len(val[j].s) >= 2 /\ New("ring", Ring(val[j].s), <<"ring", j>>)
\* a line, ring, multipoint or polygon made of part of another's points
Made(as, s) == CASE as = "ring" -> Ring(s) [] as = "poly" -> <<Ring(s)>> [] OTHER -> s
Sub(j) == /\ Room(1) /\ Len(val[j].s) > 0
          /\ \E a \in {RandomElement(0..(Len(val[j].s) - 1))} : \E b \in {RandomElement((a + 1)..Len(val[j].s))} :
             \E as \in {RandomElement(IF b - a < 2 THEN {"line", "mpt"} ELSE {"line", "mpt", "ring", "poly"})} :
               New(as, Made(as, SubSeq(val[j].s, a + 1, b)), <<"sub", j, a, b, as>>)
MAppend(j) == \E p \in {Pt(j)} : Ed(j, DoAppend(val[j].s, p), <<"mappend", j, p>>)
Poly == /\ Room(1) /\ Of({"ring"}) # {}
        /\ \E n \in {RandomElement(1..3)} : \E rs \in {[x \in 1..n |-> RandomElement(Of({"ring"}))]} :
             New("poly", [x \in 1..n |-> val[rs[x]].s], <<"poly", rs>>)
PolyFrom(j) == Room(1) /\ \E n \in {RandomElement(1..Len(val[j].s))} :
                 New("poly", SubSeq(val[j].s, 1, n), <<"polyfrom", j, n>>)
PolyEdit(j) == /\ Of({"ring"}) # {}
               /\ \E r \in {RandomElement(Of({"ring"}))} :
                    \/ Ed(j, <<[val[j].s EXCEPT ![1] = val[r].s]>>, <<"setext", j, r>>)
                    \/ Ed(j, <<Append(val[j].s, val[r].s)>>, <<"addint", j, r>>)
Write == /\ ~done /\ Len(ops) = L /\ done' = TRUE /\ UNCHANGED <<val, ops>>
         /\ PrintT(<<"BEHAVIOUR", ToJson([ops |-> ops])>>)
Next == \/ /\ Len(ops) < L
           /\ \/ NewLine
              \/ \E j \in Of({"line"}) : EditAny(j) \/ Split(j) \/ ToRing(j)
              \/ \E j \in Of({"line", "ring", "mpt"}) : Sub(j)
              \/ \E j \in Of({"mpt"}) : MAppend(j)
              \/ Poly
              \/ \E j \in Of({"poly"}) : PolyFrom(j) \/ PolyEdit(j)
        \/ Write
=============================================================================
