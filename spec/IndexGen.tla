------------------------------ MODULE IndexGen ------------------------------
(***************************************************************************)
(* Histories for the driver to replay: behaviours of the bag of            *)
(* SpatialIndex in phases of growing, shrinking and churning, over object  *)
(* sets made to collide (equal boxes, shared identifiers, touching sides). *)
(***************************************************************************)
EXTENDS SpatialIndex, TLC, Json
CONSTANTS N, L
VARIABLES box, ids, bag, ops, phase
vars == <<box, ids, bag, ops, phase>>
Caps == {<<1, 2>>, <<1, 3>>, <<2, 4>>, <<2, 5>>, <<3, 6>>}
Spot == {0, 1, 2, 5}
Boxes == {<<q[1], q[2], q[3], q[4]>> : q \in {x \in Spot \X Spot \X Spot \X Spot : x[1] <= x[3] /\ x[2] <= x[4]}}
RandBox(o) == RandomElement(Boxes)
Init == box = <<>> /\ ids = <<>> /\ bag = <<>> /\ ops = <<>> /\ phase = "start"
Start == /\ phase = "start" /\ phase' = "grow"
         /\ box' = [o \in 1..N |-> RandBox(o)]
         /\ ids' = [o \in 1..N |-> RandomElement(1..(N \div 2))]
         /\ \E c \in Caps : \E k \in {0, c[2], c[2] + 1, c[2] * c[2] + 1} :
              \E give \in {[j \in 1..Min2(k, 3 * N) |-> RandomElement(1..N)]} :
              /\ bag' = BagOf(give, N)
              /\ ops' = <<<<"build", c[1], c[2], give>>>>
Do(op, b) == /\ bag' = b /\ ops' = Append(ops, op) /\ UNCHANGED <<box, ids>>
             /\ phase' = RandomElement({phase, phase, phase, phase, phase, phase, phase, "grow", "shrink", "churn"})
Ins == phase # "shrink" /\ \E o \in 1..N : Do(<<"ins", o>>, Inserted(bag, o))
Del == phase # "grow" /\ \E o \in Stored(bag) : Do(<<"del", o>>, Removed(bag, o))
DelAbsent == \E o \in {RandomElement(1..N)} : bag[o] = 0 /\ Do(<<"del", o>>, bag)
DelId == phase # "grow" /\ \E o \in 1..N : RandomElement(1..4) = 1 /\ Do(<<"delid", ids[o]>>, WithoutId(bag, ids, ids[o]))
Ups == \E o \in {RandomElement(1..N)} : \E p \in {RandomElement(1..N)} :
         Do(<<"ups", <<o, p>>>>, Upserted(bag, ids, <<o, p>>))
Write == /\ Len(ops) = L /\ phase # "done" /\ phase' = "done"
         /\ PrintT(<<"BEHAVIOUR", ToJson([boxes |-> box, ids |-> ids, ops |-> ops])>>)
         /\ UNCHANGED <<box, ids, bag, ops>>
Next == \/ Start
        \/ phase # "start" /\ Len(ops) < L /\ (Ins \/ Del \/ DelAbsent \/ DelId \/ Ups)
        \/ Write
=============================================================================
