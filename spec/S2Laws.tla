------------------------------- MODULE S2Laws --------------------------------
(***************************************************************************)
(* Laws of the grid on every cell of the levels up to LMAX.                *)
(***************************************************************************)
EXTENDS S2Grid, TLC
CONSTANTS LMAX
VARIABLE c
Init == \E f \in 0..5 : c = [f |-> f, d |-> <<>>]
Next == Level(c) < LMAX /\ \E k \in 0..3 : c' = [c EXCEPT !.d = Append(@, k)]
\* columns and rows determine the digits, and nest
RoundTrip == LET ij == IJ(c) IN CellOf(c.f, ij[1], ij[2], Level(c)) = c
Nest == Level(c) > 0 => LET p == IJ(Parent(c, Level(c) - 1)) ij == IJ(c) IN
                        p = <<ij[1] \div 2, ij[2] \div 2>>
\* the next cell of the curve, on the next face after the last
RECURSIVE Succ(_)
Succ(x) == IF x.d = <<>> THEN [f |-> (x.f + 1) % 6, d |-> <<>>]
           ELSE LET l == Len(x.d) p == [f |-> x.f, d |-> SubSeq(x.d, 1, l - 1)] IN
                IF x.d[l] < 3 THEN [x EXCEPT !.d[l] = @ + 1]
                ELSE LET q == Succ(p) IN [f |-> q.f, d |-> Append(q.d, 0)]
Continuous == Succ(c) \in EdgeNeighbours(c)
Count == LET n == Cardinality(Neighbours(c)) ij == IJ(c) m == P2[Level(c)] - 1 IN
         n = IF Level(c) = 0 THEN 4
             ELSE IF ij[1] \in {0, m} /\ ij[2] \in {0, m} THEN 7 ELSE 8
Mutual == \A x \in Neighbours(c) : x # c /\ ValidCell(x) /\ Level(x) = Level(c) /\ c \in Neighbours(x)
\* neighbours' parents are the parent or its neighbours
Coarser == Level(c) > 0 => LET p == Parent(c, Level(c) - 1) IN
           \A x \in Neighbours(c) : Parent(x, Level(x) - 1) \in Neighbours(p) \cup {p}
==============================================================================
