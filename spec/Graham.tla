------------------------------- MODULE Graham -------------------------------
(***************************************************************************)
(* The convex hull as the library builds it: take the lowest (then right-  *)
(* most) point as pivot, sort the rest around it (nearer first on one ray),*)
(* and scan with a stack.  Checked for every sequence of N points of a G   *)
(* by G grid that are not all on one line: the result is a hull in the     *)
(* sense of Geom.  Design defects that the checks must refuse:             *)
(*   "dups"   a repeated point is not skipped while scanning,              *)
(*   "origin" the order is taken around the first point given,             *)
(*   "noturn" the stack is never taken back more than one point at a time  *)
(***************************************************************************)
EXTENDS Geom
CONSTANTS G, N, DEFECT
VARIABLES in, todo, stack, pc
vars == <<in, todo, stack, pc>>
Grid == (0..(G - 1)) \X (0..(G - 1))
Init == in = <<>> /\ todo = <<>> /\ stack = <<>> /\ pc = "give"
Give == /\ pc = "give" /\ Len(in) < N
        /\ \E p \in Grid : in' = Append(in, p)
        /\ UNCHANGED <<todo, stack, pc>>
Lower(p, q) == p[2] < q[2] \/ (p[2] = q[2] /\ p[1] > q[1])
Pivot == CHOOSE p \in Rng(in) : \A q \in Rng(in) : p = q \/ Lower(p, q)
Before(o, p, q) == LET a == Orient(o, p, q) IN
                   a > 0 \/ (a = 0 /\ D2(o, p) < D2(o, q))
\* the points but one copy of the pivot, in the order of Before; equal points are alike
RECURSIVE Sorted(_, _)
Sorted(o, s) == IF s = <<>> THEN <<>>
                ELSE LET k == CHOOSE k \in DOMAIN s : \A m \in DOMAIN s : ~Before(o, s[m], s[k])
                     IN <<s[k]>> \o Sorted(o, SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s)))
Sort == /\ pc = "give" /\ Len(in) >= 3 /\ ~AllCollinear(Rng(in))
        /\ LET o == Pivot
               \* with the nearest first, copies of the pivot come first of all
               copies == [m \in 1..(Count(in, o) - 1) |-> o]
               rest == SelectSeq(in, LAMBDA p : p # o)
               s == copies \o Sorted(IF DEFECT = "origin" THEN in[1] ELSE o, rest) IN
           /\ stack' = <<o, s[1]>>
           /\ todo' = Tail(s)
        /\ pc' = "scan" /\ UNCHANGED in
Top == stack[Len(stack)]
Skip == pc = "scan" /\ todo # <<>> /\ DEFECT # "dups" /\ Head(todo) = Top
        /\ todo' = Tail(todo) /\ UNCHANGED <<in, stack, pc>>
LeftTurn == Orient(stack[Len(stack) - 1], Top, Head(todo)) >= 0
CanSkip == DEFECT # "dups" /\ Head(todo) = Top
Push == pc = "scan" /\ todo # <<>> /\ ~CanSkip /\ Len(stack) >= 2 /\ LeftTurn
        /\ stack' = Append(stack, Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED <<in, pc>>
Pop ==  /\ pc = "scan" /\ todo # <<>> /\ ~CanSkip /\ Len(stack) >= 2 /\ ~LeftTurn
        /\ IF DEFECT = "noturn"
           THEN stack' = Append(SubSeq(stack, 1, Len(stack) - 1), Head(todo)) /\ todo' = Tail(todo)
           ELSE stack' = SubSeq(stack, 1, Len(stack) - 1) /\ todo' = todo
        /\ UNCHANGED <<in, pc>>
Done == pc = "scan" /\ todo = <<>> /\ pc' = "done" /\ UNCHANGED <<in, todo, stack>>
Next == Give \/ Sort \/ Skip \/ Push \/ Pop \/ Done
\* the closing point is added unless the first is at the end already
Ring == IF stack[1] = Top THEN stack ELSE Append(stack, stack[1])
Hull == pc = "done" => IsHull(Ring, Rng(in))
\* the scan never runs out of stack
Two == pc = "scan" => Len(stack) >= 2
=============================================================================
