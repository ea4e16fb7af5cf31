------------------------------- MODULE GeoJson -------------------------------
(***************************************************************************)
(* GeoJSON coordinates on tokens (J01, J02): how a geometry is written and *)
(* what a coordinates value means for a type name.                         *)
(* Tokens: 1 [ 2 ] 3 null 4 true 5 false 6 a string 7 an object,           *)
(* 100+i the i-th number.  Types: 1-6 Point MultiPoint LineString          *)
(* MultiLineString Polygon MultiPolygon, anything else: not one of them.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
LB == 1  RB == 2
IsNum(t) == t > 100
IsAtom(t) == t \notin {LB, RB}
\* arrays around the ordinates
Nest == <<1, 2, 2, 3, 3, 4>>

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Cat(Tail(ss))
RECURSIVE Arr(_, _)
Arr(v, n) == IF n = 0 THEN <<100 + v>> ELSE <<LB>> \o Cat([k \in DOMAIN v |-> Arr(v[k], n - 1)]) \o <<RB>>
Encoded(kind, v) == Arr(v, Nest[kind])

\* <<value, next>> of an array nested n deep over atoms, or <<>>
RECURSIVE Read(_, _, _)
RECURSIVE Items(_, _, _, _)
Read(ts, i, n) ==
  IF i > Len(ts) THEN <<>>
  ELSE IF n = 0 THEN IF IsAtom(ts[i]) THEN <<ts[i], i + 1>> ELSE <<>>
  ELSE IF ts[i] # LB THEN <<>> ELSE Items(ts, i + 1, n, <<>>)
Items(ts, i, n, acc) ==
  IF i > Len(ts) THEN <<>>
  ELSE IF ts[i] = RB THEN <<acc, i + 1>>
  ELSE LET f == Read(ts, i, n - 1) IN IF f = <<>> THEN <<>> ELSE Items(ts, f[2], n, Append(acc, f[1]))

RECURSIVE Positions(_, _)
Positions(v, n) == IF n = 1 THEN <<v>> ELSE Cat([k \in DOMAIN v |-> Positions(v[k], n - 1)])
RECURSIVE Hollow(_, _)   \* an empty list above the positions
Hollow(v, n) == IF n = 1 THEN FALSE ELSE v = <<>> \/ \E k \in DOMAIN v : Hollow(v[k], n - 1)
RECURSIVE Vals(_, _)
Vals(v, n) == IF n = 0 THEN v - 100 ELSE [k \in DOMAIN v |-> Vals(v[k], n - 1)]
GoodPos(p) == Len(p) \in {2, 3} /\ \A k \in DOMAIN p : IsNum(p[k])
\* [class |-> "error"], or "ok" (for the decodable kinds), "may" (a geometry or an error)
Meaning(typ, ts) ==
  IF typ \notin 1..6 THEN [class |-> "error"]
  ELSE LET n == Nest[typ] r == Read(ts, 1, n) IN
       IF r = <<>> \/ r[2] # Len(ts) + 1 THEN [class |-> "error"]
       ELSE LET ps == Positions(r[1], n) IN
            IF \E k \in DOMAIN ps : ~GoodPos(ps[k]) \/ Len(ps[k]) # Len(ps[1]) THEN [class |-> "error"]
            ELSE [class |-> IF Hollow(r[1], n) \/ typ \in {2, 4, 6} THEN "may" ELSE "ok",
                  kind |-> typ, dim |-> IF ps = <<>> THEN 0 ELSE Len(ps[1]), v |-> Vals(r[1], n)]
=============================================================================
