--------------------------------- MODULE Wkt ---------------------------------
(***************************************************************************)
(* The WKT language on tokens (W01, W02): what a geometry is written as,   *)
(* what a text means, which texts are errors, and which are neither.       *)
(* Tokens: 1-6 POINT MULTIPOINT LINESTRING MULTILINESTRING POLYGON         *)
(* MULTIPOLYGON, 7 another upper-case word, 8 a keyword in the wrong case, *)
(* 9 EMPTY, 10 ( 11 ) 12 comma 13 blank, 14 a word that is no number,      *)
(* 100+i the i-th number.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
OP == 10  CL == 11  CM == 12  BL == 13  BAD == 14
IsNum(t) == t > 100
IsWord(t) == IsNum(t) \/ t = BAD
NoBlanks(ts) == SelectSeq(ts, LAMBDA t : t # BL)
\* how deep the positions of a kind are nested
Depth == <<0, 1, 1, 2, 2, 3>>

(*--------------------------------- writing --------------------------------*)
RECURSIVE Join(_)
Join(ss) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o <<CM>> \o Join(Tail(ss))
PosToks(p) == [k \in DOMAIN p |-> 100 + p[k]]
RECURSIVE Body(_, _)
Body(v, depth) == IF depth = 0 THEN PosToks(v)
                  ELSE <<OP>> \o Join([k \in DOMAIN v |-> Body(v[k], depth - 1)]) \o <<CL>>
Written(kind, v) == <<kind>> \o IF kind = 1 THEN <<OP>> \o PosToks(v) \o <<CL>> ELSE Body(v, Depth[kind])

(*--------------------------------- reading --------------------------------*)
\* Every reader returns <<>> if the brackets and commas are not where they belong, else
\* <<what was read, where it ended>>.  A position is any run of words, possibly none.
RECURSIVE Run(_, _)
Run(ts, i) == IF i > Len(ts) \/ ~IsWord(ts[i]) THEN <<>> ELSE <<ts[i]>> \o Run(ts, i + 1)
ReadPos(ts, i) == LET r == Run(ts, i) IN <<r, i + Len(r)>>
ReadMaybeBracketed(ts, i) ==
  IF i <= Len(ts) /\ ts[i] = OP
  THEN LET p == ReadPos(ts, i + 1) IN
       IF p[2] <= Len(ts) /\ ts[p[2]] = CL THEN <<p[1], p[2] + 1>> ELSE <<>>
  ELSE ReadPos(ts, i)
RECURSIVE Read(_, _, _)
RECURSIVE ReadMore(_, _, _, _)
ReadItem(ts, i, depth) == IF depth = 0 THEN ReadPos(ts, i)
                          ELSE IF depth = -1 THEN ReadMaybeBracketed(ts, i)
                          ELSE Read(ts, i, depth)
\* "(" item { "," item } ")" ; the items are one level below
Read(ts, i, depth) ==
  IF i > Len(ts) \/ ts[i] # OP THEN <<>>
  ELSE LET f == ReadItem(ts, i + 1, depth - 1) IN
       IF f = <<>> THEN <<>> ELSE ReadMore(ts, f[2], depth, <<f[1]>>)
ReadMore(ts, i, depth, acc) ==
  IF i > Len(ts) THEN <<>>
  ELSE IF ts[i] = CL THEN <<acc, i + 1>>
  ELSE IF ts[i] = CM THEN LET f == ReadItem(ts, i + 1, depth - 1) IN
                          IF f = <<>> THEN <<>> ELSE ReadMore(ts, f[2], depth, Append(acc, f[1]))
  ELSE <<>>
\* multipoints: depth 0 makes ReadItem take depth -1
ReadKind(kind, ts) ==
  CASE kind = 1 -> LET r == Read(ts, 2, 1) IN IF r = <<>> \/ Len(r[1]) # 1 THEN <<>> ELSE <<r[1][1], r[2]>>
    [] kind = 2 -> Read(ts, 2, 0)
    [] OTHER -> Read(ts, 2, Depth[kind])
\* the positions, in order
RECURSIVE Flat(_, _)
RECURSIVE FlatAll(_, _)
Flat(v, depth) == IF depth = 0 THEN <<v>> ELSE FlatAll(v, depth)
FlatAll(v, depth) == IF v = <<>> THEN <<>> ELSE Flat(v[1], depth - 1) \o FlatAll(Tail(v), depth)
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Concat(Tail(ss))
GoodPos(p) == Len(p) \in {2, 3} /\ \A k \in DOMAIN p : IsNum(p[k])
RECURSIVE Values(_, _)
Values(v, depth) == IF depth = 0 THEN [k \in DOMAIN v |-> v[k] - 100]
                    ELSE [k \in DOMAIN v |-> Values(v[k], depth - 1)]
Closed(r) == IF r[1] = r[Len(r)] THEN r ELSE Append(r, r[1])
CloseRings(kind, v) == CASE kind = 5 -> [k \in DOMAIN v |-> Closed(v[k])]
                         [] kind = 6 -> [k \in DOMAIN v |-> [j \in DOMAIN v[k] |-> Closed(v[k][j])]]
                         [] OTHER -> v
\* blanks are where they may be: next to brackets, after commas, at the end
BlanksOK(ts) == \A i \in DOMAIN ts : ts[i] = BL =>
   LET before == {j \in 1..(i - 1) : ts[j] # BL} after == {j \in (i + 1)..Len(ts) : ts[j] # BL}
       a == IF before = {} THEN BL ELSE ts[CHOOSE j \in before : \A k \in before : k <= j]
       b == IF after = {} THEN BL ELSE ts[CHOOSE j \in after : \A k \in after : k >= j] IN
   a \in {OP, CL, CM, BL} \/ b \in {OP, CL, BL}

(* What decoding a text must do: [class |-> "ok", kind, dim, v], "error", or *)
(* "other" (not well-formed in a way the property does not name).            *)
Short(kind, v) ==  \* lines and rings that are too short to be lines: left open
  CASE kind = 3 -> Len(v) < 2
    [] kind \in {4, 5} -> \E k \in DOMAIN v : Len(v[k]) < 2
    [] kind = 6 -> \E k \in DOMAIN v : \E j \in DOMAIN v[k] : Len(v[k][j]) < 2
    [] OTHER -> FALSE
Meaning(ts0) ==
  LET ts == NoBlanks(ts0) none == [class |-> "other"] err == [class |-> "error"] IN
  IF ts = <<>> THEN none
  ELSE IF Len(ts) = 2 /\ ts[1] \in 1..8 /\ ts[2] = 9 THEN err
  ELSE IF Len(ts) = 3 /\ ts[1] \in 1..8 /\ ts[2] = OP /\ ts[3] = CL THEN err
  ELSE IF ts[1] \in {7, 8, 9}
       THEN IF \E k \in 1..6 : LET r == ReadKind(k, ts) IN r # <<>> /\ r[2] = Len(ts) + 1 THEN err ELSE none
  ELSE IF ts[1] \notin 1..6 THEN none
  ELSE LET k == ts[1] r == ReadKind(k, ts) IN
       IF r = <<>> \/ r[2] # Len(ts) + 1 THEN none
       ELSE LET ps == Flat(r[1], Depth[k]) IN
            IF (\E i \in DOMAIN ps : ~GoodPos(ps[i])) \/ (\E i, j \in DOMAIN ps : Len(ps[i]) # Len(ps[j])) THEN err
            ELSE IF Short(k, r[1]) \/ ~BlanksOK(ts0) THEN none
            ELSE [class |-> "ok", kind |-> k, dim |-> Len(ps[1]), v |-> CloseRings(k, Values(r[1], Depth[k]))]
=============================================================================
