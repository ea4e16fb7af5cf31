----------------------------- MODULE LineTrace -----------------------------
(***************************************************************************)
(* Conformance of line editing and derivation: every step of a recorded    *)
(* history lists all live geometry afterwards, so a step that disturbs a   *)
(* bystander is seen at once.                                              *)
(***************************************************************************)
EXTENDS LineEdit, Hist
VARIABLES h, i, val      \* val: handle -> [k: kind, v: value, live]
Init == h \in DOMAIN Trace /\ i = 0 /\ val = <<>>

Edits == {"append", "set", "ins", "del", "rev"}
\* <<value, error>> the edit gives
Edited(e) == LET s == val[e.h].v IN
  CASE e.op = "append" -> DoAppend(s, e.p)
    [] e.op = "set" -> DoSet(s, e.i, e.p)
    [] e.op = "ins" -> DoInsert(s, e.i, e.p)
    [] e.op = "del" -> DoDelete(s, e.i)
    [] OTHER -> <<Rev(s), 0>>
ErrOf(e) == IF e.op = "rev" THEN 0 ELSE e.err
\* the values new handles must have
Derived(e) ==
  CASE e.op \in {"line", "lineZ"} -> <<e.given>>    \* a guard may follow
    [] e.op = "split" -> <<Left(val[e.h].v, e.i), Right(val[e.h].v, e.i)>>
    [] e.op = "ring" -> <<Ring(val[e.h].v)>>
    [] e.op \in {"newring", "newringZ"} -> <<Ring(e.given)>>
    [] e.op = "poly" -> <<[k \in DOMAIN e.rings |-> val[e.rings[k]].v]>>
    [] e.op = "sub" -> LET s == SubSeq(val[e.h].v, e.a + 1, e.b) IN
                       <<CASE e.as = "ring" -> Ring(s) [] e.as = "poly" -> <<Ring(s)>> [] OTHER -> s>>
    [] e.op = "polyfrom" -> <<SubSeq(val[e.h].v, 1, e.k)>>
    [] OTHER -> <<>>
PartEdits == {"setext", "addint", "mappend"}
PolyEdited(e) == LET s == val[e.h].v IN
  CASE e.op = "setext" -> [s EXCEPT ![1] = val[e.ring].v]
    [] e.op = "addint" -> Append(s, val[e.ring].v)
    [] OTHER -> Append(s, e.p)
Looks(e) == LET s == val[e.h].v IN
  /\ e.n = Len(s) /\ e.set = s
  /\ Len(s) >= 2 => e.first = Head1(s) /\ e.end = Last1(s)
  /\ e.op = "look" => e.get = GetAt(s, e.i) /\ e.bad = (IF Len(s) < 2 THEN 1 ELSE 0)

Expected(e) ==  \* the value of every handle that lived before, after the step
  [j \in DOMAIN val |->
     IF e.op \in Edits /\ j = e.h THEN Edited(e)[1]
     ELSE IF e.op \in PartEdits /\ j = e.h THEN PolyEdited(e)
     ELSE val[j].v]
Seen(e, j) == e.all[CHOOSE x \in DOMAIN e.all : e.all[x].h = j].v
IsSeen(e, j) == \E x \in DOMAIN e.all : e.all[x].h = j

Verdict(e) ==
  IF e.pn # 0 THEN IF e.op \in Edits \cup {"look", "lookZ", "eq"} THEN {"L01"} ELSE {"L02"}
  ELSE LET exp == Expected(e) d == Derived(e)
           hit(j) == IsSeen(e, j) /\ Seen(e, j) # exp[j] IN
       (IF e.op \in Edits /\ (ErrOf(e) # Edited(e)[2] \/ hit(e.h)) THEN {"L01"} ELSE {})
  \cup (IF \E j \in DOMAIN val : hit(j) /\ ~(e.op \in Edits /\ j = e.h) THEN {"L02"} ELSE {})
  \cup (IF Len(e.new) < Len(d) \/ \E k \in DOMAIN d : k \in DOMAIN e.new /\ e.new[k].v # d[k]
        THEN {IF e.op \in {"line", "lineZ"} THEN "L01" ELSE "L02"} ELSE {})
  \cup (IF e.op \in {"look", "lookZ"} /\ ~Looks(e) THEN {"L01"} ELSE {})
  \cup (IF e.op = "eq" THEN LET r == IF LineEq(val[e.h].v, val[e.k].v) THEN 1 ELSE 0 IN
                            IF e.r = <<r, r>> THEN {} ELSE {"L01"} ELSE {})
  \cup (IF e.op = "parts" /\ LET s == val[e.h].v IN
           ~(e.ext = s[1] /\ e.extp = s[1] /\ e.ints = Tail(s)) THEN {"L02"} ELSE {})
  \cup (IF e.op = "rline" /\ e.res # val[e.h].v THEN {"L02"} ELSE {})
  \cup (IF e.op = "mpoint" /\ e.res # e.given THEN {"L02"} ELSE {})
  \cup (IF e.op = "mparts" /\ (e.kept # 1 \/ e.res # [k \in DOMAIN e.parts |-> val[e.parts[k]].v]) THEN {"L02"} ELSE {})

Next ==
  /\ i < Len(Trace[h].ev)
  /\ i' = i + 1 /\ h' = h
  /\ LET e == Trace[h].ev[i + 1] IN
     /\ Report(h, i + 1, Verdict(e))
     /\ val' = [j \in 1..(Len(val) + Len(e.new)) |->
                 IF j > Len(val) THEN [v |-> e.new[j - Len(val)].v, live |-> TRUE]
                 ELSE IF e.op = "drop" /\ e.h = j THEN [v |-> <<>>, live |-> FALSE]
                 ELSE IF IsSeen(e, j) THEN [val[j] EXCEPT !.v = Seen(e, j)] ELSE val[j]]
=============================================================================
