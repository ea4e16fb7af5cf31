------------------------------ MODULE Simplify ------------------------------
(***************************************************************************)
(* What a simplified line is (Douglas-Peucker, G08): res[i..j] simplifies  *)
(* line[s..t] under the squared threshold th.                              *)
(***************************************************************************)
EXTENDS Geom
RECURSIVE Simplified(_, _, _, _, _, _, _)
Simplified(line, th, res, s, t, i, j) ==
  /\ res[i] = line[s] /\ res[j] = line[t]
  /\ LET ds == [k \in (s + 1)..(t - 1) |-> SegD2(line[k], line[s], line[t])]
         far == RMaxSet(Rng(ds))
         none == t = s + 1 \/ RLe(far, th)
         \* at the threshold itself: a point beside a level or upright segment is
         \* dropped; elsewhere the rounding of the distance decides
         loose == t # s + 1 /\ REq(far, th) /\ line[s][1] # line[t][1] /\ line[s][2] # line[t][2] IN
     \/ none /\ j = i + 1
     \/ (~none \/ loose) /\ \E m \in (s + 1)..(t - 1) : /\ REq(ds[m], far)
          /\ \E k \in (i + 1)..(j - 1) :
               /\ Simplified(line, th, res, s, m, i, k)
               /\ Simplified(line, th, res, m, t, k, j)
IsSimplified(line, th, res) == IF Len(line) = 1 THEN res = line
                               ELSE Len(res) >= 2 /\ Simplified(line, th, res, 1, Len(line), 1, Len(res))
=============================================================================
