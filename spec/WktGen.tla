------------------------------- MODULE WktGen -------------------------------
(***************************************************************************)
(* The WKT language explored exhaustively: every small geometry of every   *)
(* kind is written, and the written text is edited token by token.  Laws   *)
(* checked on every state: reading what was written gives the geometry     *)
(* back; blanks at the allowed places, and brackets around multipoint      *)
(* positions, do not change the meaning.  Every distinct text is emitted   *)
(* for the driver to decode with the real code.                            *)
(***************************************************************************)
EXTENDS Wkt, TLC, Json
CONSTANTS MaxEdits, Full, Emitting
VARIABLES toks, edits, seed
Alphabet == IF Full THEN {1, 3, 5, 7, 8, 9, OP, CL, CM, BL, BAD, 101, 102} ELSE {OP, CL, CM, BL, BAD, 101}
P(k, dim) == [i \in 1..dim |-> ((3 * k + i) % 17) + 1]
L(a, n, dim) == [k \in 1..n |-> P(a + k, dim)]
R(a, n, dim) == Append(L(a, n, dim), P(a + 1, dim))
Geoms == UNION {
   {[kind |-> 1, v |-> P(1, d)],
    [kind |-> 2, v |-> L(0, 1, d)], [kind |-> 2, v |-> L(0, 2, d)],
    [kind |-> 3, v |-> L(0, 2, d)], [kind |-> 3, v |-> L(0, 3, d)],
    [kind |-> 4, v |-> <<L(0, 2, d)>>], [kind |-> 4, v |-> <<L(0, 2, d), L(2, 2, d)>>],
    [kind |-> 5, v |-> <<R(0, 2, d)>>], [kind |-> 5, v |-> <<R(0, 3, d)>>], [kind |-> 5, v |-> <<R(0, 2, d), R(2, 1, d)>>],
    [kind |-> 6, v |-> <<<<R(0, 2, d)>>>>], [kind |-> 6, v |-> <<<<R(0, 1, d)>>, <<R(2, 2, d)>>>>], [kind |-> 6, v |-> <<<<R(0, 1, d), R(3, 1, d)>>, <<R(2, 1, d)>>>>]
   } : d \in {2, 3}}
Small == {[kind |-> 1, v |-> P(1, 2)], [kind |-> 2, v |-> L(0, 2, 2)], [kind |-> 3, v |-> L(0, 2, 2)], [kind |-> 5, v |-> <<R(0, 1, 2)>>]}
Seeds == IF Full THEN Geoms ELSE Small
NoSeed == [kind |-> 0, v |-> <<>>]
Init == seed \in Seeds /\ toks = Written(seed.kind, seed.v) /\ edits = 0
Cut(i) == SubSeq(toks, 1, i - 1) \o SubSeq(toks, i + 1, Len(toks))
Put(i, t) == SubSeq(toks, 1, i - 1) \o <<t>> \o SubSeq(toks, i, Len(toks))
Next == /\ edits < MaxEdits /\ edits' = edits + 1 /\ seed' = NoSeed
        /\ \/ \E i \in DOMAIN toks : toks' = Cut(i)
           \/ \E i \in DOMAIN toks : toks' = Put(i, toks[i])
           \/ \E i \in 1..(Len(toks) + 1) : \E t \in Alphabet : toks' = Put(i, t)
           \/ \E i \in DOMAIN toks : \E t \in Alphabet : toks' = [toks EXCEPT ![i] = t]
           \/ \E i \in DOMAIN toks : i < Len(toks) /\ toks' = [toks EXCEPT ![i] = toks[i + 1], ![i + 1] = toks[i]]
           \/ \E i \in DOMAIN toks : toks' = SubSeq(toks, 1, i)
        /\ toks' # <<>> /\ toks' # toks
Blanked == [k \in 1..(3 * Len(toks)) |->
              LET i == (k + 2) \div 3 t == toks[i] IN
              IF k % 3 = 2 THEN t ELSE IF t \in {OP, CL} \/ (t = CM /\ k % 3 = 0) THEN BL ELSE 0]
SpreadOut == SelectSeq(Blanked, LAMBDA t : t # 0)
RECURSIVE Wrap(_, _)
Wrap(ps, i) == IF i > Len(ps) THEN <<>> ELSE (IF i > 1 THEN <<CM>> ELSE <<>>) \o <<OP>> \o PosToks(ps[i]) \o <<CL>> \o Wrap(ps, i + 1)
Dim(g) == Len(Flat(g.v, Depth[g.kind])[1])
OK(g) == [class |-> "ok", kind |-> g.kind, dim |-> Dim(g), v |-> g.v]
RoundTrip == seed # NoSeed => Meaning(toks) = OK(seed)
Layout == seed # NoSeed => /\ Meaning(SpreadOut) = OK(seed)
                           /\ seed.kind = 2 => Meaning(<<2, OP>> \o Wrap(seed.v, 1) \o <<CL>>) = OK(seed)
\* the three classes are decided for every text, and "ok" texts list what they mean
Decided == LET m == Meaning(toks) IN
   /\ m.class \in {"ok", "error", "other"}
   /\ m.class = "ok" => /\ \A i \in DOMAIN toks : toks[i] # BAD
                        /\ m.kind = NoBlanks(toks)[1]
Emit == Emitting => PrintT(<<"BEHAVIOUR", ToJson([toks |-> toks])>>)
View == toks
=============================================================================
