-------------------------------- MODULE RTree --------------------------------
(***************************************************************************)
(* The design of the spatial index: a balanced tree of nodes with stored   *)
(* boxes.  The heuristics (which subtree, which split, which packing) are  *)
(* left open - any choice is a behaviour - so what is checked holds for    *)
(* whatever heuristic the code uses.  Refines the bag of SpatialIndex.     *)
(* Defect switches re-enable mistakes this code base has made or could     *)
(* make; with any of them on TLC must report a violation.                  *)
(***************************************************************************)
EXTENDS SpatialIndex, TLC
CONSTANTS Box,         \* the objects' boxes (a sequence)
          Min, Max,    \* children per node
          Defect       \* "none", or which mistake is switched on
VARIABLES tree, bag, crashed
vars == <<tree, bag, crashed>>
Obj == 1..Len(Box)
None == [lv |-> 0, kids |-> {}]

Leaf(n) == n.lv = 1
BB(n) == BoxJoinAll({k.bb : k \in n.kids})
Ent(n) == [bb |-> BB(n), ch |-> n, ob |-> 0]
ObEnt(o) == [bb |-> Box[o], ch |-> None, ob |-> o]   \* an entry of a leaf
Objects(n) == {k.ob : k \in n.kids}
RECURSIVE Content(_)
Content(n) == IF n.lv <= 1 THEN Objects(n) ELSE UNION {Content(k.ch) : k \in n.kids}

(*------------------------- splitting and inserting ------------------------*)
Splits(n) == {<<[n EXCEPT !.kids = l], [n EXCEPT !.kids = n.kids \ l]>> :
                l \in {s \in SUBSET n.kids : Cardinality(s) >= Max2(Min, 1) /\ Cardinality(n.kids \ s) >= Max2(Min, 1)}}
Fit(n) == IF Cardinality(n.kids) > Max THEN Splits(n) ELSE {<<n>>}
Updated(k, x) == IF Defect = "stalebox" THEN [bb |-> k.bb, ch |-> x, ob |-> 0] ELSE Ent(x)
RECURSIVE InsAt(_, _, _)
\* the possible results, one node or two, of putting e into n at the given level
InsAt(n, e, level) ==
  IF n.lv = level THEN Fit([n EXCEPT !.kids = @ \cup {e}])
  ELSE UNION {UNION {Fit([n EXCEPT !.kids = (@ \ {k}) \cup (IF Len(r) = 1 THEN {Updated(k, r[1])} ELSE {Ent(r[1]), Ent(r[2])})])
                     : r \in InsAt(k.ch, e, level)} : k \in n.kids}
Grown(n, e, level) ==
  {IF Len(r) = 1 THEN r[1] ELSE [lv |-> n.lv + 1, kids |-> {Ent(r[1]), Ent(r[2])}] : r \in InsAt(n, e, level)}

(*--------------------------------- deleting -------------------------------*)
RECURSIVE DelAt(_, _)
\* <<node, orphans by level>> after taking o out of n; empty if o is not found on a path of covering boxes
DelAt(n, o) ==
  IF Leaf(n) THEN IF o \in Objects(n) THEN {<<[n EXCEPT !.kids = @ \ {ObEnt(o)}], <<>>>>} ELSE {}
  ELSE UNION {{LET c == r[1] IN
               IF Cardinality(c.kids) < Min
               THEN <<[n EXCEPT !.kids = @ \ {k}], IF c.kids = {} THEN r[2] ELSE Append(r[2], c)>>
               ELSE <<[n EXCEPT !.kids = (@ \ {k}) \cup {IF Defect = "looseshrink" THEN [bb |-> k.bb, ch |-> c, ob |-> 0] ELSE Ent(c)}], r[2]>>
               : r \in DelAt(k.ch, o)} : k \in {x \in n.kids : BoxIn(x.bb, Box[o])}}
RECURSIVE Reinsert(_, _)
\* orphans, given lowest level first, go back in highest level first
Reinsert(ns, orphans) ==
  IF orphans = <<>> THEN ns
  ELSE LET last == IF Defect = "lowfirst" THEN 1 ELSE Len(orphans)
           c == orphans[last]
           rest == IF Defect = "lowfirst" THEN Tail(orphans) ELSE SubSeq(orphans, 1, Len(orphans) - 1)
           level == IF Defect = "wronglevel" THEN 2 ELSE c.lv + 1
       IN Reinsert(UNION {Grown(n, Ent(c), level) : n \in ns}, rest)
RECURSIVE Collapse(_)
Collapse(n) == IF n.kids = {} THEN [lv |-> 1, kids |-> {}]
               ELSE IF ~Leaf(n) /\ Cardinality(n.kids) = 1 /\ Defect # "nocollapse" THEN Collapse((CHOOSE k \in n.kids : TRUE).ch)
               ELSE n
Shrunk(n, o) == UNION {LET back == Reinsert({r[1]}, r[2]) IN
                       IF back = {} THEN {None} ELSE {Collapse(x) : x \in back} : r \in DelAt(n, o)}

(*---------------------------------- packing -------------------------------*)
RECURSIVE Height(_, _)
Height(n, h) == IF n <= Pow(Max, h) THEN h ELSE Height(n, h + 1)
RECURSIVE Partitions(_, _)
\* the ways to cut s into at most k non-empty parts
Partitions(s, k) ==
  IF s = {} THEN {{}}
  ELSE IF k = 0 THEN {}
  ELSE LET m == CHOOSE x \in s : TRUE IN
       UNION {{{p \cup {m}} \cup rest : rest \in Partitions(s \ (p \cup {m}), k - 1)} : p \in SUBSET (s \ {m})}
LeafOf(s) == [lv |-> 1, kids |-> {ObEnt(o) : o \in s}]
RECURSIVE Packed(_, _)
RECURSIVE Combine(_, _)
\* one packed child of height h for every part
Combine(parts, h) == IF parts = {} THEN {{}}
                     ELSE LET p == CHOOSE x \in parts : TRUE IN
                          {{Ent(c)} \cup r : c \in Packed(p, h), r \in Combine(parts \ {p}, h)}
Packed(s, h) == IF h = 1 THEN IF Cardinality(s) <= Max THEN {LeafOf(s)} ELSE {}
                ELSE UNION {{[lv |-> h, kids |-> ks] : ks \in Combine(ps, h - 1)} : ps \in Partitions(s, Max)}

(*--------------------------------- behaviour ------------------------------*)
Bag(s) == [o \in Obj |-> IF o \in s THEN 1 ELSE 0]
Init == \E s \in SUBSET Obj :
          /\ bag = Bag(s) /\ crashed = FALSE
          \* the computed height may come out one too large (rounded logarithms)
          /\ tree \in IF Cardinality(s) <= Max THEN {LeafOf(s)}
                      ELSE UNION {Packed(s, Height(Cardinality(s), 1) + x) : x \in 0..1}
Insert == \E o \in Obj : bag[o] = 0 /\ bag' = Inserted(bag, o) /\ crashed' = FALSE
            /\ tree' \in Grown(tree, ObEnt(o), 1)
DeleteOne(o) == /\ tree' \in LET r == Shrunk(tree, o) IN IF r = {} THEN {tree} ELSE r
                /\ crashed' = (tree' = None)
                /\ bag' = IF Shrunk(tree, o) = {} THEN bag ELSE Removed(bag, o)
Delete == \E o \in Obj : DeleteOne(o)
Next == crashed = FALSE /\ (Insert \/ Delete)
Spec == Init /\ [][Next]_vars

(*-------------------------------- the queries -----------------------------*)
RECURSIVE Search(_, _)
Search(n, q) == IF n.lv <= 1 THEN {o \in Objects(n) : BoxMeet(Box[o], q)}
                ELSE UNION {Search(k.ch, q) : k \in {x \in n.kids : BoxMeet(x.bb, q)}}
\* branch and bound: kids in order of their distance, cut off by the k-th best so far
RECURSIVE SortBy(_, _)
SortBy(s, D) == IF s = {} THEN <<>> ELSE LET m == CHOOSE x \in s : \A y \in s : D[x] <= D[y] IN <<m>> \o SortBy(s \ {m}, D)
Better(best, o, k, p) == LET d(x) == Dist2(p, Box[x])
                             i == Cardinality({j \in DOMAIN best : d(best[j]) <= d(o)}) IN
                         IF i >= k THEN best
                         ELSE LET w == SubSeq(best, 1, i) \o <<o>> \o SubSeq(best, i + 1, Len(best)) IN
                              SubSeq(w, 1, Min2(k, Len(w)))
RECURSIVE AddLeaf(_, _, _, _)
AddLeaf(best, s, k, p) == IF s = <<>> THEN best ELSE AddLeaf(Better(best, s[1], k, p), Tail(s), k, p)
RECURSIVE Near(_, _, _, _)
RECURSIVE NearKids(_, _, _, _)
NearKids(best, ks, k, p) == IF ks = <<>> THEN best ELSE NearKids(Near(ks[1].ch, k, p, best), Tail(ks), k, p)
Near(n, k, p, best) ==
  IF n.lv <= 1 THEN AddLeaf(best, SortBy(Objects(n), [o \in Objects(n) |-> o]), k, p)
  ELSE LET ks == SortBy(n.kids, [x \in n.kids |-> Dist2(p, x.bb)])
           cut(x) == IF Len(best) < (IF Defect = "earlyprune" THEN 1 ELSE k) THEN TRUE
                     ELSE Dist2(p, x.bb) <= Dist2(p, Box[best[Len(best)]]) IN
       NearKids(best, SelectSeq(ks, cut), k, p)

(*------------------------------- what must hold ---------------------------*)
RECURSIVE Sound(_)
Sound(n) == /\ Cardinality(n.kids) <= Max
            /\ ~Leaf(n) => \A k \in n.kids : /\ k.ch.lv = n.lv - 1 /\ k.ch.kids # {}
                                            /\ k.bb = BB(k.ch) /\ Sound(k.ch)
RECURSIVE Held(_)
Held(n) == IF n.lv <= 1 THEN Cardinality(n.kids)
            ELSE LET ks == SortBy(n.kids, [x \in n.kids |-> x.bb[1]]) IN SumSeq([j \in DOMAIN ks |-> Held(ks[j].ch)])
NoCrash == ~crashed
Refines == ~crashed => /\ Bag(Content(tree)) = bag
                       /\ Held(tree) = BagSize(bag)
Balanced == ~crashed => Sound(tree) /\ (tree.kids = {} => Leaf(tree))
RECURSIVE FlattenBoxes(_)
FlattenBoxes(s) == IF s = <<>> THEN <<>> ELSE s[1] \o FlattenBoxes(Tail(s))
RECURSIVE NodeBoxes(_)
NodeBoxes(n) == IF n.lv <= 1 THEN <<>>
                ELSE LET ks == SortBy(n.kids, [x \in n.kids |-> x.bb[1]]) IN
                     FlattenBoxes([j \in DOMAIN ks |-> Append(NodeBoxes(ks[j].ch), ks[j].bb)])
Shape == ~crashed => ShapeOK(bag, Box, Max, tree.lv, NodeBoxes(tree))
Spots == {b[j] : b \in Rng(Box), j \in {1, 3}}
Searches == ~crashed => \A a \in Spots : \A b \in {x \in Spots : x >= a} :
              LET q == <<a, 0, b, 0>> IN Search(tree, q) = {o \in Stored(bag) : BoxMeet(Box[o], q)}
Nearest == ~crashed => \A a \in Spots : \A k \in 0..(BagSize(bag) + 1) :
              NearestOK(bag, Box, <<a, 0>>, k, IF k = 0 THEN <<>> ELSE Near(tree, k, <<a, 0>>, <<>>))
\* every stored object can be taken out
Deletable == ~crashed => \A o \in Stored(bag) : DelAt(tree, o) # {}
Shallow == tree.lv <= 4
=============================================================================
