---------------------------- MODULE FeatureStore ----------------------------
(***************************************************************************)
(* Features and collections as values and references (J03, J04).           *)
(* A property value is <<tag, ...>>: 0 absent, 1 null, <<2, b>> boolean,   *)
(* <<3, sign, hi, lo, 0>> an int of size hi * 2^24 + lo, <<4, sign, hi,    *)
(* lo, q>> a float of size hi * 2^24 + lo + q / 4, <<5, n>> the n-th       *)
(* string, <<6, n>> the n-th other JSON value; all padded to five.         *)
(* A feature: [id, props, bbox, crs, kind, toks]; a collection:            *)
(* [feats (references), bbox, crs].  toks: 1 [ 2 ] 1000 + c a coordinate.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Absent == <<0, 0, 0, 0, 0>>
IntV(s, hi, lo) == <<3, s, hi, lo, 0>>
Flt(s, hi, lo, q) == <<4, s, hi, lo, q>>
\* what an encode/decode cycle makes of a value: numbers come back as floats
Cycled(v) == IF v[1] = 3 THEN <<4, v[2], v[3], v[4], 0>> ELSE v
Truncated(v) == IF v[3] = 0 /\ v[4] = 0 THEN IntV(0, 0, 0) ELSE IntV(v[2], v[3], v[4])
\* typed access: <<value, error>>; the accessors: 2 bool 3 int 4 float 5 string
Zero(acc) == <<acc, 0, 0, 0, 0>>
Access(v, acc) == IF v[1] = acc THEN <<v, 0>>
                  ELSE IF acc = 3 /\ v[1] = 4 THEN <<Truncated(v), 0>>
                  ELSE <<Zero(acc), 1>>
MustAccess(v, acc, defs) == LET r == Access(v, acc) IN
                            IF r[2] = 0 THEN r[1] ELSE IF defs # <<>> THEN defs[1] ELSE Zero(acc)

\* coordinates of a token list, as a sequence; positions of dim ordinates each
Coords(toks) == LET s == SelectSeq(toks, LAMBDA t : t >= 500) IN [k \in DOMAIN s |-> s[k] - 1000]
Dim(toks) == LET a == CHOOSE k \in DOMAIN toks : toks[k] >= 500 /\ \A j \in 1..(k - 1) : toks[j] < 500
                 z == CHOOSE k \in DOMAIN toks : k > a /\ toks[k] = 2 /\ \A j \in a..(k - 1) : toks[j] # 2
             IN z - a
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
BoxOf(toks) == LET c == Coords(toks)
                   xs == {c[k] : k \in {k \in DOMAIN c : k % 2 = 1}} ys == {c[k] : k \in {k \in DOMAIN c : k % 2 = 0}}
               IN <<MinOf(xs), MinOf(ys), MaxOf(xs), MaxOf(ys)>>

NewFeature(kind, toks, K) == [id |-> <<1, 0, 0, 0, 0>>, props |-> [k \in 1..K |-> Absent], bbox |-> <<>>, crs |-> 0, kind |-> kind, toks |-> toks]
NewCollection == [feats |-> <<>>, bbox |-> <<>>, crs |-> 0]
\* the document of a feature, and the feature a document decodes to
Decoded(f) == [f EXCEPT !.id = Cycled(f.id), !.props = [k \in DOMAIN f.props |-> Cycled(f.props[k])]]
DocOf(f) == Decoded(f)

\* st = [feats, colls]; the effect of each operation
SetProp(st, f, k, v) == [st EXCEPT !.feats[f].props[k] = v]
SetId(st, f, v) == [st EXCEPT !.feats[f].id = v]
SetCrs(st, f, c) == [st EXCEPT !.feats[f].crs = c]
SetBox(st, f, b) == [st EXCEPT !.feats[f].bbox = b]
AddFeat(st, c, f) == [st EXCEPT !.colls[c].feats = Append(@, f)]
SetCollCrs(st, c, v) == [st EXCEPT !.colls[c].crs = v]
SetCollBox(st, c, b) == [st EXCEPT !.colls[c].bbox = b]
MakeFeature(st, kind, toks, K) == [st EXCEPT !.feats = Append(@, NewFeature(kind, toks, K))]
\* a copy of a feature shares nothing that later calls on either can change
TwinFeature(st, f) == [st EXCEPT !.feats = Append(@, st.feats[f])]
MakeCollection(st) == [st EXCEPT !.colls = Append(@, NewCollection)]
CycleFeature(st, f) == [st EXCEPT !.feats = Append(@, Decoded(st.feats[f]))]
CycleCollection(st, c) ==
  LET fs == st.colls[c].feats n == Len(st.feats) IN
  [feats |-> st.feats \o [k \in DOMAIN fs |-> Decoded(st.feats[fs[k]])],
   colls |-> Append(st.colls, [st.colls[c] EXCEPT !.feats = [k \in DOMAIN fs |-> n + k]])]
=============================================================================
