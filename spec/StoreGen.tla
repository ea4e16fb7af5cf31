------------------------------ MODULE StoreGen ------------------------------
(***************************************************************************)
(* Histories of features and collections: laws for every reachable state   *)
(* (StoreLaws.cfg, exhaustive), and histories for the driver to replay.    *)
(***************************************************************************)
EXTENDS FeatureStore, TLC, Json
CONSTANTS L, K, MaxF, MaxC, Random, Emitting
VARIABLES st, ops
Vals == <<<<1, 0, 0, 0, 0>>, <<2, 1, 0, 0, 0>>, <<2, 0, 0, 0, 0>>, IntV(1, 0, 7), IntV(-1, 0, 3), IntV(0, 0, 0), IntV(1, 3, 1), Flt(1, 0, 2, 3), Flt(-1, 0, 2, 2), Flt(-1, 0, 0, 2), Flt(0, 0, 0, 0),
          Flt(1, 0, 5, 0), Flt(1, 1024, 3, 0), <<5, 1, 0, 0, 0>>, <<5, 0, 0, 0, 0>>, <<6, 2, 0, 0, 0>>, <<6, 3, 0, 0, 0>>>>
Few == {4, 8, 14}
Geoms == << <<1, <<1, 1003, 998, 2>>>>, <<3, <<1, 1, 1000, 1001, 2, 1, 995, 1004, 2, 2>>>>,
            <<5, <<1, 1, 1, 1000, 1000, 2, 1, 1004, 1000, 2, 1, 1002, 1003, 2, 1, 1000, 1000, 2, 2, 2>>>>,
            <<2, <<1, 1, 1009, 991, 2, 1, 1001, 1002, 2, 2>>>>, <<1, <<1, 1001, 1002, 1003, 2>>>> >>
Boxes == {<<>>, <<1, 2, 3, 4>>}
Pick(S) == IF Random THEN {RandomElement(S)} ELSE S
V == IF Random THEN DOMAIN Vals ELSE Few
GS == IF Random THEN DOMAIN Geoms ELSE {1}
Init == st = [feats |-> <<>>, colls |-> <<>>] /\ ops = <<>>
Log(s, op) == st' = s /\ ops' = Append(ops, op)
F == DOMAIN st.feats
C == DOMAIN st.colls
Next ==
  /\ Len(ops) < L
  /\ \/ Len(st.feats) < MaxF /\ \E g \in Pick(GS) : Log(MakeFeature(st, Geoms[g][1], Geoms[g][2], K), <<"new", g>>)
     \/ Len(st.colls) < MaxC /\ Log(MakeCollection(st), <<"coll">>)
     \/ F # {} /\ \E f \in Pick(F) :
          \/ \E k \in Pick(1..K) : \E v \in Pick(V) : Log(SetProp(st, f, k, Vals[v]), <<"prop", f, k, v>>)
          \/ \E v \in Pick(V \ {1}) : Log(SetId(st, f, Vals[v]), <<"id", f, v>>)
          \/ \E c \in Pick(0..2) : Random /\ Log(SetCrs(st, f, c), <<"crs", f, c>>)
          \/ Dim(st.feats[f].toks) = 2 /\ Log(SetBox(st, f, BoxOf(st.feats[f].toks)), <<"box", f>>)
          \/ \E b \in Pick(Boxes) : Random /\ Log(SetBox(st, f, b), <<"rawbox", f, b>>)
          \/ Len(st.feats) < MaxF /\ Log(CycleFeature(st, f), <<"cycle", f>>)
          \/ \E k \in Pick(1..K) : \E a \in Pick(2..5) : Random /\ Log(st, <<"get", f, k, a>>)
     \/ F # {} /\ C # {} /\ \E f \in Pick(F) : \E c \in Pick(C) : Len(st.colls[c].feats) < 3 /\ Log(AddFeat(st, c, f), <<"add", c, f>>)
     \/ C # {} /\ \E c \in Pick(C) :
          \/ \E v \in Pick(0..2) : Random /\ Log(SetCollCrs(st, c, v), <<"ccrs", c, v>>)
          \/ \E b \in Pick(Boxes) : Random /\ Log(SetCollBox(st, c, b), <<"cbox", c, b>>)
          \/ Len(st.feats) + Len(st.colls[c].feats) <= MaxF /\ Len(st.colls) < MaxC /\ Log(CycleCollection(st, c), <<"ccycle", c>>)
\* decoding is idempotent: what is decoded encodes to the same document
Stable == \A f \in F : DocOf(Decoded(st.feats[f])) = DocOf(st.feats[f])
\* after a cycle, every accessor that succeeded before still succeeds with the same number or value
Access1(f, k, a) == Access(st.feats[f].props[k], a)
Kept == \A f \in F : \A k \in 1..K : \A a \in 2..5 :
   LET r == Access(st.feats[f].props[k], a) q == Access(Decoded(st.feats[f]).props[k], a) IN
   r[2] = 0 => q = r
Refs == \A c \in C : \A k \in DOMAIN st.colls[c].feats : st.colls[c].feats[k] \in F
\* a step changes one object at most, or only adds objects
Frame == [][ \/ /\ Len(st'.feats) = Len(st.feats) /\ Len(st'.colls) = Len(st.colls)
                /\ Cardinality({f \in F : st'.feats[f] # st.feats[f]}) + Cardinality({c \in C : st'.colls[c] # st.colls[c]}) <= 1
             \/ /\ SubSeq(st'.feats, 1, Len(st.feats)) = st.feats
                /\ SubSeq(st'.colls, 1, Len(st.colls)) = st.colls ]_<<st, ops>>
Write == /\ Emitting /\ Len(ops) = L /\ PrintT(<<"BEHAVIOUR", ToJson([ops |-> ops])>>) /\ ops' = Append(ops, <<"done">>) /\ UNCHANGED st
GenNext == Next \/ Write
View == st
=============================================================================
