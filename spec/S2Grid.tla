------------------------------- MODULE S2Grid --------------------------------
(***************************************************************************)
(* The S2 grid on integers.  A cell is [f, d]: a cube face 0..5 and the    *)
(* base-4 digits of its place on the face's Hilbert curve, one per level.  *)
(* A position on a face has coordinates -2^30..2^30 in each direction      *)
(* (half the size of a level-30 cell is one unit).                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
P2 == [n \in 0..30 |-> Pow2(n)]
Level(c) == Len(c.d)
Parent(c, l) == [f |-> c.f, d |-> SubSeq(c.d, 1, l)]
ValidCell(c) == c.f \in 0..5

(*----------------- Hilbert curve: digits to column and row ----------------*)
\* orientation 0..3; the quadrant (2 * column bit + row bit) of each digit in each orientation
PosToQuad == <<<<0, 1, 3, 2>>, <<0, 2, 3, 1>>, <<3, 2, 0, 1>>, <<3, 1, 0, 2>>>>
\* the orientation within the sub-square: exchanged, same, same, exchanged and turned
Turn(o, pos) == CASE pos = 0 -> IF o % 2 = 0 THEN o + 1 ELSE o - 1
                  [] pos = 3 -> 3 - o
                  [] OTHER -> o
RECURSIVE IJFrom(_, _, _, _, _)
IJFrom(d, k, o, i, j) ==
  IF k > Len(d) THEN <<i, j>>
  ELSE LET q == PosToQuad[o + 1][d[k] + 1]
       IN IJFrom(d, k + 1, Turn(o, d[k]), 2 * i + (q \div 2), 2 * j + (q % 2))
IJ(c) == IJFrom(c.d, 1, c.f % 2, 0, 0)
\* and back
RECURSIVE DigitsFrom(_, _, _, _)
DigitsFrom(i, j, l, o) ==
  IF l = 0 THEN <<>>
  ELSE LET h == P2[l - 1] q == 2 * (i \div h) + (j \div h)
           pos == CHOOSE p \in 0..3 : PosToQuad[o + 1][p + 1] = q
       IN <<pos>> \o DigitsFrom(i % h, j % h, l - 1, Turn(o, pos))
CellOf(f, i, j, l) == [f |-> f, d |-> DigitsFrom(i, j, l, f % 2)]

(*------------------------ extents and positions ---------------------------*)
Lo(i, l) == IF l = 0 THEN -P2[30] ELSE (i - P2[l - 1]) * P2[31 - l]
Hi(i, l) == IF l = 0 THEN P2[30] ELSE Lo(i, l) + P2[31 - l]
Mid(i, l) == IF l = 0 THEN 0 ELSE Lo(i, l) + P2[30 - l]
\* a measured position: the faces it lies on, with its coordinates there
On(cands, c) == LET ij == IJ(c) l == Level(c) IN
  \E k \in DOMAIN cands : /\ cands[k][1] = c.f
                          /\ Lo(ij[1], l) <= cands[k][2] /\ cands[k][2] <= Hi(ij[1], l)
                          /\ Lo(ij[2], l) <= cands[k][3] /\ cands[k][3] <= Hi(ij[2], l)
At(cands, f, s, t) == \E k \in DOMAIN cands : cands[k] = <<f, s, t>>

(*------------------- neighbours, across cube edges too --------------------*)
\* a point of the cube of half-width w, in the frame of face f and in space
ToXYZ(f, u, v, w) == CASE f = 0 -> <<w, u, v>> [] f = 1 -> <<-u, w, v>> [] f = 2 -> <<-u, -v, w>>
                       [] f = 3 -> <<-w, -v, -u>> [] f = 4 -> <<v, -w, -u>> [] OTHER -> <<v, u, -w>>
FaceOf(p, w) == CASE p[1] = w -> 0 [] p[2] = w -> 1 [] p[3] = w -> 2
                  [] p[1] = -w -> 3 [] p[2] = -w -> 4 [] p[3] = -w -> 5 [] OTHER -> 9
ToUV(f, p) == CASE f = 0 -> <<p[2], p[3]>> [] f = 1 -> <<-p[1], p[3]>> [] f = 2 -> <<-p[1], -p[2]>>
                [] f = 3 -> <<-p[3], -p[2]>> [] f = 4 -> <<-p[3], p[1]>> [] OTHER -> <<p[2], p[1]>>
\* the cell one step (a, b) away on level l: over an edge it is folded onto the next face;
\* diagonally over a corner of the cube there is none
Step(f, i, j, l, a, b) ==
  LET n == P2[l] x == i + a y == j + b
      ox == x < 0 \/ x >= n  oy == y < 0 \/ y >= n
      u == 2 * x + 1 - n  v == 2 * y + 1 - n
  IN IF ~ox /\ ~oy THEN {CellOf(f, x, y, l)}
     ELSE IF ox /\ oy THEN {}
     ELSE LET cu == IF ox THEN (IF x < 0 THEN -n ELSE n) ELSE u
              cv == IF oy THEN (IF y < 0 THEN -n ELSE n) ELSE v
              p == ToXYZ(f, cu, cv, n - 1)
              g == FaceOf(p, n)
              uv == ToUV(g, p)
          IN {CellOf(g, (uv[1] + n - 1) \div 2, (uv[2] + n - 1) \div 2, l)}
Neighbours(c) == LET ij == IJ(c) l == Level(c) IN
  UNION {Step(c.f, ij[1], ij[2], l, a, b) : a \in -1..1, b \in -1..1} \ {c}
EdgeNeighbours(c) == LET ij == IJ(c) l == Level(c) IN
  UNION {Step(c.f, ij[1], ij[2], l, s[1], s[2]) : s \in {<<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>}}
==============================================================================
