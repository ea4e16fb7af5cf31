-------------------------------- MODULE Geom --------------------------------
(***************************************************************************)
(* Exact planar geometry on the integer grid: the vocabulary in which the  *)
(* other modules state what a calculation must return.  A point is <<x,y>>,*)
(* a ring a closed sequence of points (first = last), a polygon a sequence *)
(* of rings (shell first, then holes), a box <<minx,miny,maxx,maxy>>, a    *)
(* rational <<p,q>> with q > 0.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE MaxOver(_, _, _), SumTo(_, _)
Rng(s) == {s[i] : i \in DOMAIN s}
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y
\* sum of f[1..n]
SumTo(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumTo(f, n - 1)
SumSeq(f) == SumTo(f, Len(f))
MaxOver(f, n, d) == IF n = 0 THEN d ELSE MaxOver(f, n - 1, Max2(d, f[n]))
Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Count(s, v) == Cardinality({i \in DOMAIN s : s[i] = v})
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A v \in Rng(s) : Count(s, v) = Count(t, v)

(*------------------------------- rationals -------------------------------*)
REq(a, b) == a[1] * b[2] = b[1] * a[2]
RLt(a, b) == a[1] * b[2] < b[1] * a[2]
RLe(a, b) == a[1] * b[2] <= b[1] * a[2]
RMinSet(S) == CHOOSE x \in S : \A y \in S : RLe(x, y)
RMaxSet(S) == CHOOSE x \in S : \A y \in S : RLe(y, x)

(*--------------------------------- boxes ---------------------------------*)
BoxOf(pts) == LET xs == {p[1] : p \in Rng(pts)}
                  ys == {p[2] : p \in Rng(pts)}
              IN <<SetMin(xs), SetMin(ys), SetMax(xs), SetMax(ys)>>
BoxMeet(a, b) == /\ a[1] <= b[3] /\ b[1] <= a[3]
                 /\ a[2] <= b[4] /\ b[2] <= a[4]
BoxIn(a, b) == a[1] <= b[1] /\ a[2] <= b[2] /\ b[3] <= a[3] /\ b[4] <= a[4]   \* b inside a
PtInBox(a, p) == a[1] <= p[1] /\ p[1] <= a[3] /\ a[2] <= p[2] /\ p[2] <= a[4]
BoxJoin(a, b) == <<Min2(a[1], b[1]), Min2(a[2], b[2]), Max2(a[3], b[3]), Max2(a[4], b[4])>>
BoxJoinAll(S) == <<SetMin({b[1] : b \in S}), SetMin({b[2] : b \in S}),
                   SetMax({b[3] : b \in S}), SetMax({b[4] : b \in S})>>
BoxArea(b) == (b[3] - b[1]) * (b[4] - b[2])
\* squared distance of a point to a closed box
BoxDist2(p, b) ==
  LET dx == IF p[1] < b[1] THEN b[1] - p[1] ELSE IF p[1] > b[3] THEN p[1] - b[3] ELSE 0
      dy == IF p[2] < b[2] THEN b[2] - p[2] ELSE IF p[2] > b[4] THEN p[2] - b[4] ELSE 0
  IN dx * dx + dy * dy

(*------------------------------- segments --------------------------------*)
Orient(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (c[1] - a[1]) * (b[2] - a[2])
InSpan(a, b, p) == /\ Min2(a[1], b[1]) <= p[1] /\ p[1] <= Max2(a[1], b[1])
                   /\ Min2(a[2], b[2]) <= p[2] /\ p[2] <= Max2(a[2], b[2])
OnSeg(a, b, p) == InSpan(a, b, p) /\ Orient(a, b, p) = 0
ProperCross(a, b, c, d) ==
  /\ Sgn(Orient(a, b, c)) * Sgn(Orient(a, b, d)) = -1
  /\ Sgn(Orient(c, d, a)) * Sgn(Orient(c, d, b)) = -1
Meet(a, b, c, d) == \/ ProperCross(a, b, c, d)
                    \/ OnSeg(a, b, c) \/ OnSeg(a, b, d)
                    \/ OnSeg(c, d, a) \/ OnSeg(c, d, b)
\* relation codes of the library
UNKNOWN == 0  DISJOINT == 1  CONTAIN == 2  EQUAL == 3  TOUCH == 4  COVER == 5  INTERSECT == 6
SegRel(a, b, c, d) == IF ProperCross(a, b, c, d) THEN INTERSECT
                      ELSE IF Meet(a, b, c, d) THEN TOUCH ELSE DISJOINT
Edges(r) == {<<r[i], r[i + 1]>> : i \in 1..(Len(r) - 1)}
OnLine(l, p) == \/ \E i \in 1..(Len(l) - 1) : OnSeg(l[i], l[i + 1], p)
                \/ \E i \in DOMAIN l : l[i] = p
LinesMeet(l, m) == \E i \in 1..(Len(l) - 1), j \in 1..(Len(m) - 1) :
                      Meet(l[i], l[i + 1], m[j], m[j + 1])

(*--------------------------- rings and polygons ---------------------------*)
OnRing(r, p) == \E i \in 1..(Len(r) - 1) : OnSeg(r[i], r[i + 1], p)
\* the ray from p towards +x crosses edge ab (half-open in y)
RayHits(a, b, p) == /\ (a[2] > p[2]) # (b[2] > p[2])
                    /\ IF b[2] > a[2] THEN Orient(a, b, p) > 0 ELSE Orient(a, b, p) < 0
InRing(r, p) == Cardinality({i \in 1..(Len(r) - 1) : RayHits(r[i], r[i + 1], p)}) % 2 = 1
PolyEdges(poly) == UNION {Edges(poly[k]) : k \in DOMAIN poly}
OnPoly(poly, p) == \E k \in DOMAIN poly : OnRing(poly[k], p)
InPoly(poly, p) == /\ InRing(poly[1], p)
                   /\ \A k \in 2..Len(poly) : ~InRing(poly[k], p)
PipRel(poly, p) == IF OnPoly(poly, p) THEN TOUCH
                   ELSE IF InPoly(poly, p) THEN CONTAIN ELSE DISJOINT
\* twice the signed area
Area2(r) == SumSeq([i \in 1..(Len(r) - 1) |-> r[i][1] * r[i + 1][2] - r[i + 1][1] * r[i][2]])
PolyArea2(poly) == Abs(Area2(poly[1])) - SumSeq([k \in 1..(Len(poly) - 1) |-> Abs(Area2(poly[k + 1]))])
\* first moments: six times area times centroid, per ring, sign made that of a positive ring
MomX(r) == Sgn(Area2(r)) * SumSeq([i \in 1..(Len(r) - 1) |->
             (r[i][1] + r[i + 1][1]) * (r[i][1] * r[i + 1][2] - r[i + 1][1] * r[i][2])])
MomY(r) == Sgn(Area2(r)) * SumSeq([i \in 1..(Len(r) - 1) |->
             (r[i][2] + r[i + 1][2]) * (r[i][1] * r[i + 1][2] - r[i + 1][1] * r[i][2])])
\* centroid of the region (holes removed): <<numerator x, numerator y, denominator>>
RegionCentroid(poly) ==
  <<MomX(poly[1]) - SumSeq([k \in 1..(Len(poly) - 1) |-> MomX(poly[k + 1])]),
    MomY(poly[1]) - SumSeq([k \in 1..(Len(poly) - 1) |-> MomY(poly[k + 1])]),
    3 * PolyArea2(poly)>>
SelfCross(r) == \E i \in 1..(Len(r) - 1), j \in 1..(Len(r) - 1) :
                   i < j /\ ProperCross(r[i], r[i + 1], r[j], r[j + 1])
\* no two edges share a point except neighbours at their common vertex
SimpleRing(r) ==
  LET n == Len(r) - 1 IN
  /\ n >= 3 /\ r[1] = r[n + 1]
  /\ \A i \in 1..n : r[i] # r[i + 1]
  /\ \A i \in 1..n, j \in 1..n : i < j =>
       LET a == r[i] b == r[i + 1] c == r[j] d == r[j + 1] IN
       IF j = i + 1 /\ ~(i = 1 /\ n = 2) THEN ~OnSeg(a, b, d) /\ ~OnSeg(c, d, a)
       ELSE IF i = 1 /\ j = n THEN ~OnSeg(a, b, c) /\ ~OnSeg(c, d, b)
       ELSE ~Meet(a, b, c, d)
RotRing(r, k) == LET n == Len(r) - 1 IN [i \in 1..(n + 1) |-> r[((i - 1 + k) % n) + 1]]

(*------------------------------- distances --------------------------------*)
D2(p, q) == (p[1] - q[1]) * (p[1] - q[1]) + (p[2] - q[2]) * (p[2] - q[2])
Dot(a, b, p) == (p[1] - a[1]) * (b[1] - a[1]) + (p[2] - a[2]) * (b[2] - a[2])
\* squared distance point-segment as a rational
SegD2(p, a, b) ==
  LET D == D2(a, b) u == Dot(a, b, p) IN
  IF D = 0 \/ u <= 0 THEN <<D2(p, a), 1>>
  ELSE IF u >= D THEN <<D2(p, b), 1>>
  ELSE LET c == Orient(a, b, p) IN <<c * c, D>>
\* closest point of the segment: <<nx, ny, den>>
SegFoot(p, a, b) ==
  LET D == D2(a, b) u == Dot(a, b, p) IN
  IF D = 0 \/ u <= 0 THEN <<a[1], a[2], 1>>
  ELSE IF u >= D THEN <<b[1], b[2], 1>>
  ELSE <<a[1] * D + u * (b[1] - a[1]), a[2] * D + u * (b[2] - a[2]), D>>
LineD2(p, l) == RMinSet({SegD2(p, l[i], l[i + 1]) : i \in 1..(Len(l) - 1)})
PolyD2(p, poly) == IF PipRel(poly, p) # DISJOINT THEN <<0, 1>>
                   ELSE RMinSet({LineD2(p, poly[k]) : k \in DOMAIN poly})
HausD2(l, m) ==
  SetMax({SetMin({D2(l[i], m[j]) : j \in DOMAIN m}) : i \in DOMAIN l}
         \cup {SetMin({D2(l[i], m[j]) : i \in DOMAIN l}) : j \in DOMAIN m})

(*--------------------------------- hulls ----------------------------------*)
AllCollinear(S) == \A a \in S, b \in S, c \in S : Orient(a, b, c) = 0
\* the ring without repetitions in place
Squeeze(h) == LET keep == {i \in DOMAIN h : i = 1 \/ h[i] # h[i - 1]}
                  RECURSIVE Pick(_)
                  Pick(K) == IF K = {} THEN <<>>
                             ELSE LET m == SetMin(K) IN <<h[m]>> \o Pick(K \ {m})
              IN Pick(keep)
\* h is a closed counter-clockwise convex ring on points of S containing S
IsHull(h, S) ==
  /\ Len(h) >= 4 /\ h[1] = h[Len(h)]
  /\ \A i \in DOMAIN h : h[i] \in S
  /\ Area2(h) > 0
  /\ \A i \in 1..(Len(h) - 1) : \A p \in S : Orient(h[i], h[i + 1], p) >= 0
  /\ \A i \in 1..(Len(h) - 2) : Orient(h[i], h[i + 1], h[i + 2]) >= 0
  \* it goes round once: a corner is not left and visited again (it may be repeated in place)
  /\ LET g == Squeeze(h) IN
     \A i \in 1..(Len(g) - 1), j \in 1..(Len(g) - 1) : i # j => g[i] # g[j]
\* extreme directions of the hull (edges between extreme points)
HullEdges(S) == {e \in S \X S : e[1] # e[2] /\ \A p \in S : Orient(e[1], e[2], p) >= 0}
\* area of the smallest rectangle around S with a side along ab, as a rational
EdgeRectOf(S, a, b) ==
  LET us == {Dot(a, b, p) : p \in S} vs == {Orient(a, b, p) : p \in S}
  IN <<(SetMax(us) - SetMin(us)) * (SetMax(vs) - SetMin(vs)), D2(a, b)>>
LeastRectOf(S) == RMinSet({EdgeRectOf(S, h[1], h[2]) : h \in HullEdges(S)})
=============================================================================
