------------------------------ MODULE LineEdit ------------------------------
(***************************************************************************)
(* Lines, rings and polygons as values: what each editing operation and    *)
(* derivation makes of the points it is given (L01, L02).  Positions are   *)
(* counted from 0 as in the library; points are sequences of two or three  *)
(* ordinates in units of which Tol are within the coordinate tolerance.    *)
(***************************************************************************)
EXTENDS Integers, Sequences
Tol == 2
Dist1(a, b) == IF a < b THEN b - a ELSE a - b
PtEq(p, q) == Len(p) = Len(q) /\ \A k \in DOMAIN p : Dist1(p[k], q[k]) <= Tol
LineEq(a, b) == Len(a) = Len(b) /\ \A k \in DOMAIN a : PtEq(a[k], b[k])
Rev(s) == [k \in DOMAIN s |-> s[Len(s) + 1 - k]]
InsertAt(s, n, p) == SubSeq(s, 1, n) \o <<p>> \o SubSeq(s, n + 1, Len(s))
DeleteAt(s, n) == SubSeq(s, 1, n) \o SubSeq(s, n + 2, Len(s))
\* <<new value, error>>
DoAppend(s, p) == <<Append(s, p), 0>>
DoSet(s, n, p) == IF n < 0 \/ n > Len(s) THEN <<s, 1>>
                  ELSE IF n = Len(s) THEN <<Append(s, p), 0>>
                  ELSE <<[s EXCEPT ![n + 1] = p], 0>>
DoInsert(s, n, p) == IF n < 0 \/ n > Len(s) THEN <<s, 1>> ELSE <<InsertAt(s, n, p), 0>>
DoDelete(s, n) == IF n < 0 \/ n >= Len(s) THEN <<s, 1>> ELSE <<DeleteAt(s, n), 0>>
GetAt(s, n) == IF n < 0 \/ n >= Len(s) THEN <<>> ELSE <<s[n + 1]>>
Head1(s) == <<s[1]>>
Last1(s) == <<s[Len(s)]>>
Left(s, n) == SubSeq(s, 1, n + 1)
Right(s, n) == SubSeq(s, n + 1, Len(s))
Ring(s) == IF PtEq(s[1], s[Len(s)]) THEN s ELSE Append(s, s[1])
=============================================================================
