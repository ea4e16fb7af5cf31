------------------------------- MODULE Shapes --------------------------------
(***************************************************************************)
(* Distances to shapes in the GPS system (D02).  A shape is made of points *)
(* of an integer grid of degrees; the nearest point of a segment is the    *)
(* one of the plane of longitude and latitude (Geom's foot), and how far   *)
(* away it is is the great-circle distance, here a number of centimetres.  *)
(* What the operators say holds for any metric given as numbers.           *)
(***************************************************************************)
EXTENDS Geom
Same(x, y) == Abs(x - y) <= 1
LeastOf(s) == CHOOSE m \in s : \A x \in s : m <= x
MostOf(s) == CHOOSE m \in s : \A x \in s : m >= x
\* from a position to a polygon, given the distances to its edges
ToPoly(poly, p, es) == IF PipRel(poly, p) # DISJOINT THEN 0 ELSE LeastOf(Rng(es))
\* the discrete Hausdorff distance from the table t[i][j] of distances between vertices
Hausdorff(t) == LET I == DOMAIN t J == DOMAIN t[1]
                    a == MostOf({LeastOf({t[i][j] : j \in J}) : i \in I})
                    b == MostOf({LeastOf({t[i][j] : i \in I}) : j \in J})
                IN IF a > b THEN a ELSE b
\* Douglas-Peucker on the table t[s][e][i] of distances of the points from the segments:
\* keep is an increasing sequence of positions of the line; it simplifies s..e
RECURSIVE Kept(_, _, _, _, _, _, _)
Kept(t, th, keep, s, e, i, j) ==
  /\ keep[i] = s /\ keep[j] = e
  /\ LET mid == (s + 1)..(e - 1)
         far == MostOf({t[s][e][k] : k \in mid}) IN
     \/ j = i + 1 /\ (mid = {} \/ far <= th + 1)
     \/ /\ mid # {} /\ far + 1 >= th
        /\ \E k \in (i + 1)..(j - 1) :
             /\ keep[k] \in mid /\ Same(t[s][e][keep[k]], far)
             /\ Kept(t, th, keep, s, keep[k], i, k)
             /\ Kept(t, th, keep, keep[k], e, k, j)
\* some choice of positions of line reads as res
RECURSIVE Readings(_, _, _, _)
Readings(line, res, n, k) ==   \* positions chosen for res[1..k], ending at n
  IF line[n] # res[k] THEN {}
  ELSE IF k = 1 THEN IF n = 1 THEN {<<1>>} ELSE {}
  ELSE {Append(r, n) : r \in UNION {Readings(line, res, m, k - 1) : m \in (k - 1)..(n - 1)}}
IsThinned(line, t, th, res) ==
  IF Len(line) = 1 THEN res = line
  ELSE /\ Len(res) >= 2 /\ Len(res) <= Len(line)
       /\ \E keep \in Readings(line, res, Len(line), Len(res)) : Kept(t, th, keep, 1, Len(line), 1, Len(res))
=============================================================================
