---------------------------- MODULE SpatialIndex ----------------------------
(***************************************************************************)
(* The spatial index as its user sees it: a bag of objects, each with a    *)
(* bounding box and an identifier.  This module says what every operation  *)
(* does to the bag and which answers it may give (properties R01-R06).     *)
(* Objects are numbered 1..Len(box); a bag maps each to how often it is    *)
(* stored; boxes are <<minx, miny, maxx, maxy>>.                           *)
(***************************************************************************)
EXTENDS Geom

RECURSIVE CountIn(_, _)
CountIn(s, x) == IF s = <<>> THEN 0 ELSE (IF s[1] = x THEN 1 ELSE 0) + CountIn(Tail(s), x)
RECURSIVE AddAll(_, _)
AddAll(bag, s) == IF s = <<>> THEN bag ELSE AddAll([bag EXCEPT ![s[1]] = @ + 1], Tail(s))
EmptyBag(n) == [o \in 1..n |-> 0]
\* s lists only known objects
Known(s, n) == \A k \in DOMAIN s : s[k] \in 1..n
BagOf(s, n) == AddAll(EmptyBag(n), s)
BagSize(bag) == SumSeq(bag)
Stored(bag) == {o \in DOMAIN bag : bag[o] > 0}

(*------------------------------- mutation ---------------------------------*)
Inserted(bag, o) == [bag EXCEPT ![o] = @ + 1]
Removed(bag, o) == [bag EXCEPT ![o] = @ - 1]
WithoutId(bag, ids, i) == [o \in DOMAIN bag |-> IF ids[o] = i THEN 0 ELSE bag[o]]
RECURSIVE Upserted(_, _, _)
Upserted(bag, ids, os) == IF os = <<>> THEN bag
                          ELSE Upserted(Inserted(WithoutId(bag, ids, ids[os[1]]), os[1]), ids, Tail(os))
\* a deletion that answered r and left after, out of bag
DeleteOK(bag, o, r, after) == IF bag[o] > 0 THEN r = 1 /\ after = Removed(bag, o)
                              ELSE r = 0 /\ after = bag
\* with the caller's comparator, true for the objects in m
DeleteCmpOK(bag, box, o, m, r, after) ==
  LET cand == {x \in m : bag[x] > 0} IN
  \/ r = 1 /\ \E x \in cand : after = Removed(bag, x)
  \/ r = 0 /\ after = bag /\ \A x \in cand : ~BoxIn(box[x], box[o])
DeleteIdOK(bag, ids, i, r, after) ==
  /\ after = WithoutId(bag, ids, i)
  /\ r = IF \E o \in Stored(bag) : ids[o] = i THEN 1 ELSE 0

(*-------------------------------- queries ---------------------------------*)
SearchOK(bag, box, q, cond, res) ==
  /\ Known(res, Len(box))
  /\ BagOf(res, Len(box)) = [o \in DOMAIN bag |-> IF o \in cond /\ BoxMeet(box[o], q) THEN bag[o] ELSE 0]
ByIdOK(bag, ids, i, res) ==
  /\ Known(res, Len(bag))
  /\ BagOf(res, Len(bag)) = [o \in DOMAIN bag |-> IF ids[o] = i THEN bag[o] ELSE 0]
\* squared distance from a point to a box
Gap(x, lo, hi) == IF x < lo THEN lo - x ELSE IF x > hi THEN x - hi ELSE 0
Dist2(p, b) == LET dx == Gap(p[1], b[1], b[3]) dy == Gap(p[2], b[2], b[4]) IN dx * dx + dy * dy
NearestOK(bag, box, p, k, res) ==
  LET n == Len(box) d(o) == Dist2(p, box[o]) got == BagOf(res, n) size == BagSize(bag) IN
  /\ Known(res, n)
  /\ Len(res) = IF k < size THEN k ELSE size
  /\ \A o \in 1..n : got[o] <= bag[o]
  /\ \A j \in 1..(Len(res) - 1) : d(res[j]) <= d(res[j + 1])
  /\ res # <<>> => \A o \in 1..n : got[o] < bag[o] => d(o) >= d(res[Len(res)])

(*---------------------------------- shape ---------------------------------*)
RECURSIVE Pow(_, _)
Pow(m, k) == IF k = 0 THEN 1 ELSE m * Pow(m, k - 1)
RECURSIVE LeastNodes(_, _, _)
\* the least number of nodes below the root: level by level, none holding more than m
LeastNodes(n, m, levels) == IF levels = 0 THEN 0
                            ELSE LET c == (n + m - 1) \div m IN c + LeastNodes(c, m, levels - 1)
RECURSIVE MostNodes(_, _, _)
\* the most: every node holds something, and at most m^j nodes lie j levels below the root
MostNodes(n, m, levels) == IF levels = 0 THEN 0
                           ELSE (IF Pow(m, levels) < n THEN Pow(m, levels) ELSE n) + MostNodes(n, m, levels - 1)
Tight(b, in) == /\ \E x \in in : x[1] = b[1]
                /\ \E x \in in : x[2] = b[2]
                /\ \E x \in in : x[3] = b[3]
                /\ \E x \in in : x[4] = b[4]
ShapeOK(bag, box, max, depth, nb) ==
  LET st == {box[o] : o \in Stored(bag)} size == BagSize(bag) IN
  st # {} =>
  /\ depth >= 1
  /\ (depth = 1) <=> (nb = <<>>)
  /\ size <= IF depth > 7 THEN size ELSE Pow(max, depth)
  /\ Len(nb) >= LeastNodes(size, max, depth - 1)
  /\ depth > 7 \/ Len(nb) <= MostNodes(size, max, depth - 1)
  /\ \A x \in st : Cardinality({k \in DOMAIN nb : BoxIn(nb[k], x)}) >= depth - 1
  /\ \A k \in DOMAIN nb : Tight(nb[k], {x \in st : BoxIn(nb[k], x)})
  /\ nb # <<>> => BoxJoinAll(Rng(nb)) = BoxJoinAll(st)
=============================================================================
