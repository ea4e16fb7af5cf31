------------------------------- MODULE Peucker -------------------------------
(***************************************************************************)
(* Line simplification as the library does it: a stack of pieces, each     *)
(* split at its farthest point or dropped in between.  Checked for every   *)
(* line of up to N points of a G by G grid and every threshold of Ths: the *)
(* result is Simplified, and the shape guarantee follows.  Design defects: *)
(*   "line"  distances are taken to the endless line through the ends,     *)
(*   "once"  the second piece of a split is forgotten (its points dropped),*)
(*   "ends"  a closed line loses its last point                            *)
(***************************************************************************)
EXTENDS Simplify
CONSTANTS G, N, Ths, DEFECT
VARIABLES line, th, stack, gone, pc
vars == <<line, th, stack, gone, pc>>
Grid == (0..(G - 1)) \X (0..(G - 1))
Init == line = <<>> /\ th \in Ths /\ stack = <<>> /\ gone = {} /\ pc = "give"
Give == /\ pc = "give" /\ Len(line) < N
        /\ \E p \in Grid : line' = Append(line, p)
        /\ UNCHANGED <<th, stack, gone, pc>>
Start == /\ pc = "give" /\ Len(line) >= 2
         /\ stack' = <<<<1, Len(line)>>>> /\ pc' = "work" /\ UNCHANGED <<line, th, gone>>
Far(k, s, t) == LET a == line[s] b == line[t] c == Orient(a, b, line[k]) IN
                IF DEFECT = "line" /\ a # b THEN <<c * c, D2(a, b)>> ELSE SegD2(line[k], a, b)
Work ==
  /\ pc = "work" /\ stack # <<>>
  /\ LET p == stack[Len(stack)] rest == SubSeq(stack, 1, Len(stack) - 1)
         in == (p[1] + 1)..(p[2] - 1)
         far == {k \in in : \A m \in in : RLe(Far(m, p[1], p[2]), Far(k, p[1], p[2]))} IN
     IF in # {} /\ \A k \in far : RLt(<<th, 4>>, Far(k, p[1], p[2]))
     THEN \E k \in far : IF DEFECT = "once" THEN stack' = Append(rest, <<p[1], k>>) /\ gone' = gone \cup ((k + 1)..(p[2] - 1))
                         ELSE stack' = rest \o <<<<p[1], k>>, <<k, p[2]>>>> /\ gone' = gone
     ELSE stack' = rest /\ gone' = gone \cup in
  /\ UNCHANGED <<line, th, pc>>
Done == /\ pc = "work" /\ stack = <<>> /\ pc' = "done"
        /\ gone' = IF DEFECT = "ends" /\ line[1] = line[Len(line)] THEN gone \cup {Len(line)} ELSE gone
        /\ UNCHANGED <<line, th, stack>>
Next == Give \/ Start \/ Work \/ Done
Kept == LET RECURSIVE Pick(_)
            Pick(k) == IF k > Len(line) THEN <<>> ELSE (IF k \in gone THEN <<>> ELSE <<line[k]>>) \o Pick(k + 1)
        IN Pick(1)
Faithful == pc = "done" => IsSimplified(line, <<th, 4>>, Kept)
\* every dropped point is within the threshold of the piece that replaces it
Shape == pc = "done" => \A k \in gone :
   \E s \in 1..(k - 1), t \in (k + 1)..Len(line) :
      /\ s \notin gone /\ t \notin gone /\ (s + 1)..(t - 1) \subseteq gone
      /\ RLe(SegD2(line[k], line[s], line[t]), <<th, 4>>)
=============================================================================
