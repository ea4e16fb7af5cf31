----------------------------- MODULE GeoJsonGen -----------------------------
(***************************************************************************)
(* GeoJSON coordinates explored exhaustively: every small geometry is      *)
(* written, and the written value is edited at every node, keeping it a    *)
(* JSON value.  Each distinct (type, value) is emitted for the driver.     *)
(***************************************************************************)
EXTENDS GeoJson, TLC, Json
CONSTANTS MaxEdits, Full, Emitting
VARIABLES typ, toks, edits, seed
P(k, dim) == [i \in 1..dim |-> ((3 * k + i) % 17) + 1]
L(a, n, dim) == [k \in 1..n |-> P(a + k, dim)]
R(a, n, dim) == Append(L(a, n, dim), P(a + 1, dim))
G(k, v) == [kind |-> k, v |-> v]
\* sequences, not sets: values of different nesting cannot be compared
Of(d) == <<G(1, P(1, d)), G(2, L(0, 1, d)), G(2, L(0, 2, d)), G(3, L(0, 2, d)), G(3, L(0, 3, d)),
    G(4, <<L(0, 2, d)>>), G(4, <<L(0, 2, d), L(2, 2, d)>>),
    G(5, <<R(0, 3, d)>>), G(5, <<R(0, 2, d), R(2, 1, d)>>),
    G(6, <<<<R(0, 2, d)>>>>), G(6, <<<<R(0, 1, d)>>, <<R(2, 2, d), R(4, 1, d)>>>>)>>
SmallOf(d) == <<G(1, P(1, d)), G(3, L(0, 2, d)), G(5, <<R(0, 1, d)>>)>>
Seeds == IF Full THEN Of(2) \o Of(3) ELSE SmallOf(2) \o SmallOf(3)
\* seed: the number of the geometry written, 0 once edited
Init == \E s \in DOMAIN Seeds : seed = s /\ typ = Seeds[s].kind /\ toks = Encoded(Seeds[s].kind, Seeds[s].v) /\ edits = 0

RECURSIVE Close(_, _, _)   \* where the value that starts at i ends
Close(ts, i, depth) == LET d == depth + (IF ts[i] = LB THEN 1 ELSE IF ts[i] = RB THEN -1 ELSE 0) IN
                       IF d = 0 THEN i ELSE Close(ts, i + 1, d)
End(i) == Close(toks, i, 0)
Starts == {i \in DOMAIN toks : toks[i] # RB}
Atoms == {3, 4, 5, 6, 7, 101, 118}
Sub(a, b) == SubSeq(toks, a, b)
Splice(i, j, mid) == Sub(1, i - 1) \o mid \o Sub(j + 1, Len(toks))
Next == /\ edits < MaxEdits /\ edits' = edits + 1 /\ seed' = 0
        /\ \/ typ' \in 0..9 \ {typ} /\ edits = 0 /\ UNCHANGED toks
           \/ UNCHANGED typ /\ \E i \in Starts : LET j == End(i) IN
              \/ \E a \in Atoms : toks' = Splice(i, j, <<a>>)                    \* another atom
              \/ toks' = Splice(i, j, <<LB, RB>>)                                \* an empty array
              \/ toks' = Splice(i, j, <<LB>> \o Sub(i, j) \o <<RB>>)             \* wrapped
              \/ toks[i] = LB /\ i > 1 /\ toks' = Splice(i, j, Sub(i + 1, j - 1)) \* unwrapped
              \/ i > 1 /\ toks' = Splice(i, j, <<>>)                             \* dropped
              \/ i > 1 /\ toks' = Splice(i, j, Sub(i, j) \o Sub(i, j))           \* doubled
              \/ i > 1 /\ \E a \in Atoms : toks' = Splice(i, j, <<a>> \o Sub(i, j))
              \/ i > 1 /\ \E a \in Atoms : toks' = Splice(i, j, Sub(i, j) \o <<a>>)
           \/ UNCHANGED typ /\ edits = 0 /\ toks' = <<>>                          \* no coordinates at all
RoundTrip == seed # 0 => LET m == Meaning(typ, toks) IN
               m.class = (IF typ \in {1, 3, 5} THEN "ok" ELSE "may") /\ m.v = Seeds[seed].v
\* one value has at most one type among those of different nesting
Unambiguous == \A a, b \in 1..6 : Nest[a] # Nest[b] /\ Meaning(a, toks).class # "error" /\ Meaning(b, toks).class # "error"
                 => Meaning(a, toks).v = <<>> \/ Hollow(Meaning(a, toks).v, Nest[a]) \/ Hollow(Meaning(b, toks).v, Nest[b])
Emit == Emitting => PrintT(<<"BEHAVIOUR", ToJson([typ |-> typ, toks |-> toks])>>)
=============================================================================
