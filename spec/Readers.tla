------------------------------- MODULE Readers -------------------------------
(***************************************************************************)
(* Concurrent nearest-neighbour queries over one unchanging index, step by *)
(* step: each query visits the tree's nodes, puts a node's branches into a *)
(* scratch buffer in order of their distance, then reads the buffer back   *)
(* entry by entry while other queries run.  With the scratch private to a  *)
(* query every interleaving gives the answer the query gives alone and no  *)
(* two steps race; with Defect = "shared" (buffers kept in the index) or   *)
(* "cache" (a query stores something in the index) that fails.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Readers, Query, Defect
\* a tree of height two: node 0 has branches 1..3, each with two values
Branch == 1..3
Vals == [b \in Branch |-> CASE b = 1 -> {0, 7} [] b = 2 -> {3, 4} [] OTHER -> {5, 9}]
Abs(x) == IF x < 0 THEN -x ELSE x
Near(S, p) == CHOOSE x \in S : \A y \in S : Abs(x - p) < Abs(y - p) \/ (Abs(x - p) = Abs(y - p) /\ x <= y)
D(b, p) == Abs(Near(Vals[b], p) - p)
Order(p) == CHOOSE s \in [1..3 -> Branch] :
              /\ \A i, j \in 1..3 : i # j => s[i] # s[j]
              /\ \A i \in 1..2 : D(s[i], p) < D(s[i + 1], p) \/ (D(s[i], p) = D(s[i + 1], p) /\ s[i] < s[i + 1])
\* the visit stops at the first branch no nearer than the best so far
RECURSIVE AloneFrom(_, _, _)
AloneFrom(p, i, best) == IF i > 3 THEN best
                         ELSE LET b == Order(p)[i] x == Near(Vals[b], p) IN
                              IF best # {} /\ \A y \in best : D(b, p) >= Abs(y - p) THEN best
                              ELSE AloneFrom(p, i + 1, {Near(best \cup {x}, p)})
Alone(p) == AloneFrom(p, 1, {})

VARIABLES pc, k, best, scratch, cache
vars == <<pc, k, best, scratch, cache>>
Loc(r) == IF Defect = "shared" THEN 0 ELSE r
Init == /\ pc = [r \in Readers |-> "fill"] /\ k = [r \in Readers |-> 1] /\ best = [r \in Readers |-> {}]
        /\ scratch = [l \in Readers \cup {0} |-> <<>>] /\ cache = 0
\* filling takes two steps: unsorted, then sorted
Fill(r) == /\ pc[r] = "fill" /\ pc' = [pc EXCEPT ![r] = "sort"]
           /\ scratch' = [scratch EXCEPT ![Loc(r)] = <<1, 2, 3>>]
           /\ cache' = IF Defect = "cache" THEN r ELSE cache
           /\ UNCHANGED <<k, best>>
Sort(r) == /\ pc[r] = "sort" /\ pc' = [pc EXCEPT ![r] = "read"]
           /\ scratch' = [scratch EXCEPT ![Loc(r)] = Order(Query[r])]
           /\ UNCHANGED <<k, best, cache>>
Read(r) == /\ pc[r] = "read"
           /\ LET b == scratch[Loc(r)][k[r]] x == Near(Vals[b], Query[r])
                  stop == best[r] # {} /\ \A y \in best[r] : D(b, Query[r]) >= Abs(y - Query[r]) IN
              /\ best' = IF stop THEN best ELSE [best EXCEPT ![r] = {Near(best[r] \cup {x}, Query[r])}]
              /\ k' = [k EXCEPT ![r] = @ + 1]
              /\ pc' = [pc EXCEPT ![r] = IF stop \/ k[r] = 3 THEN "done" ELSE "read"]
           /\ UNCHANGED <<scratch, cache>>
Next == \E r \in Readers : Fill(r) \/ Sort(r) \/ Read(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* what the next step of a reader touches
Writes(r) == CASE pc[r] = "fill" -> {<<"s", Loc(r)>>} \cup (IF Defect = "cache" THEN {<<"c", 0>>} ELSE {})
               [] pc[r] = "sort" -> {<<"s", Loc(r)>>}
               [] OTHER -> {}
Reads(r) == IF pc[r] = "read" THEN {<<"s", Loc(r)>>} ELSE {}
NoRace == \A r, s \in Readers : r # s => Writes(r) \cap (Writes(s) \cup Reads(s)) = {}
AsAlone == \A r \in Readers : pc[r] = "done" => best[r] = Alone(Query[r])
Unchanged == cache = 0
Terminates == <>(\A r \in Readers : pc[r] = "done")
=============================================================================
