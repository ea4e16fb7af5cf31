------------------------------ MODULE FrameMem ------------------------------
(***************************************************************************)
(* Design model of calculations on shared storage.  One array of cells is  *)
(* seen through overlapping views with spare capacity.  Each caller, in    *)
(* turn and interleaved with the others, calls Sorted(view) (a hull or a   *)
(* covering: work on the points in some order) or Joined(view1, view2) (a  *)
(* minimum rectangle of several parts: points gathered one part after the  *)
(* other) and reads its points one step at a time.  Working on a private   *)
(* copy leaves memory alone under every interleaving.  Defect:             *)
(*   "inplace" orders the caller's cells,                                  *)
(*   "append"  gathers into the first view's spare capacity,               *)
(*   "borrow"  puts a mark into the view and takes it out again.           *)
(* "borrow" passes every check of one caller alone: only the interleaved   *)
(* behaviours show it.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Callers, Defect, Rounds
Cells == 1..5
Start == <<4, 2, 5, 1, 3>>
\* first cell and length; the capacity runs to the end of the array
Views == {<<1, 3>>, <<2, 2>>, <<4, 2>>}
Jobs == {<<"sorted", v, v>> : v \in Views} \cup {<<"joined", v, w>> : v \in {<<1, 3>>, <<2, 2>>}, w \in {<<4, 2>>, <<5, 1>>}}
Of(m, v) == SubSeq(m, v[1], v[1] + v[2] - 1)
RECURSIVE Insert(_, _), Sort(_)
Insert(s, x) == IF s = <<>> THEN <<x>> ELSE IF x <= s[1] THEN <<x>> \o s ELSE <<s[1]>> \o Insert(Tail(s), x)
Sort(s) == IF s = <<>> THEN <<>> ELSE Insert(Sort(Tail(s)), s[1])
Put(m, at, s) == [c \in Cells |-> IF at <= c /\ c < at + Len(s) THEN s[c - at + 1] ELSE m[c]]
\* what a call gives on untouched memory
Want(j) == IF j[1] = "sorted" THEN Sort(Of(Start, j[2])) ELSE Of(Start, j[2]) \o Of(Start, j[3])

VARIABLES mem, pc, job, own, round
vars == <<mem, pc, job, own, round>>
Init == /\ mem = Start /\ pc = [c \in Callers |-> "idle"] /\ job = [c \in Callers |-> <<"sorted", <<1, 3>>, <<1, 3>>>>]
        /\ own = [c \in Callers |-> <<>>] /\ round = [c \in Callers |-> 0]
Begin(c) == /\ pc[c] = "idle" /\ round[c] < Rounds
            /\ \E j \in Jobs : job' = [job EXCEPT ![c] = j]
            /\ pc' = [pc EXCEPT ![c] = "take"] /\ own' = [own EXCEPT ![c] = <<>>] /\ round' = [round EXCEPT ![c] = @ + 1] /\ UNCHANGED mem
\* reads the first view
Take(c) == /\ pc[c] = "take"
           /\ LET v == job[c][2] s == Of(mem, v) IN
              CASE Defect = "inplace" /\ job[c][1] = "sorted" -> mem' = Put(mem, v[1], Sort(s)) /\ own' = [own EXCEPT ![c] = Sort(s)]
                [] Defect = "borrow" -> mem' = [mem EXCEPT ![v[1]] = 0] /\ own' = [own EXCEPT ![c] = s]
                [] OTHER -> mem' = mem /\ own' = [own EXCEPT ![c] = IF job[c][1] = "sorted" THEN Sort(s) ELSE s]
           /\ pc' = [pc EXCEPT ![c] = "more"] /\ UNCHANGED <<job, round>>
\* reads the second
More(c) == /\ pc[c] = "more"
           /\ LET v == job[c][2] w == job[c][3] s == Of(mem, w) IN
              IF job[c][1] = "joined" THEN
                /\ own' = [own EXCEPT ![c] = @ \o s]
                /\ mem' = CASE Defect = "append" /\ v[1] + v[2] + w[2] - 1 <= 5 -> Put(mem, v[1] + v[2], s)
                            [] Defect = "borrow" -> [mem EXCEPT ![v[1]] = own[c][1]]
                            [] OTHER -> mem
              ELSE IF Defect = "borrow" THEN mem' = [mem EXCEPT ![v[1]] = own[c][1]] /\ own' = [own EXCEPT ![c] = Sort(@)]
              ELSE UNCHANGED <<mem, own>>
           /\ pc' = [pc EXCEPT ![c] = "done"] /\ UNCHANGED <<job, round>>
End(c) == pc[c] = "done" /\ pc' = [pc EXCEPT ![c] = "idle"] /\ UNCHANGED <<mem, job, own, round>>
Next == \E c \in Callers : Begin(c) \/ Take(c) \/ More(c) \/ End(c)
Spec == Init /\ [][Next]_vars

\* memory is as it was whenever nobody is inside a call
Frame == (\A c \in Callers : pc[c] \in {"idle", "done"}) => mem = Start
\* every call gives what it gives alone, the first time and again
SameResult == \A c \in Callers : pc[c] = "done" => own[c] = Want(job[c])
=============================================================================
