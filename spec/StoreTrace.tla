----------------------------- MODULE StoreTrace -----------------------------
(***************************************************************************)
(* Conformance of features, collections and typed properties: every step   *)
(* of a recorded history lists all live features and collections.          *)
(***************************************************************************)
EXTENDS FeatureStore, Hist
K == 4
VARIABLES h, i, st, made      \* made: which features still have their original geometry
Init == h \in DOMAIN Trace /\ i = 0 /\ st = [feats |-> <<>>, colls |-> <<>>] /\ made = <<>>

Expected(e) ==
  CASE e.op = "new" -> MakeFeature(st, e.kind, e.toks, K)
    [] e.op = "twin" -> TwinFeature(st, e.f)
    [] e.op = "prop" -> SetProp(st, e.f, e.k, e.v)
    [] e.op = "id" -> SetId(st, e.f, e.v)
    [] e.op = "crs" -> SetCrs(st, e.f, e.c)
    [] e.op = "rawbox" -> SetBox(st, e.f, e.b)
    [] e.op = "coll" -> MakeCollection(st)
    [] e.op = "add" -> AddFeat(st, e.c, e.f)
    [] e.op = "ccrs" -> SetCollCrs(st, e.c, e.v)
    [] e.op = "cbox" -> SetCollBox(st, e.c, e.b)
    [] e.op = "cycle" -> CycleFeature(st, e.f)
    [] e.op = "ccycle" -> CycleCollection(st, e.c)
    [] OTHER -> st
\* setting the box: of a decoded multi-geometry it may also be left alone; of a 3-D one it is open
BoxStep(e) ==
  LET f == st.feats[e.f] seen == e.obs.feats[e.f].bbox IN
  IF Dim(f.toks) # 2 THEN SetBox(st, e.f, seen)
  ELSE IF made[e.f] = 0 /\ f.kind \notin {1, 3, 5} /\ seen = f.bbox THEN st
  ELSE SetBox(st, e.f, BoxOf(f.toks))
Sized(e) == Len(e.obs.feats) = Len(st.feats) /\ Len(e.obs.colls) = Len(st.colls)
Wanted(e) == IF e.op = "box" /\ Sized(e) THEN BoxStep(e) ELSE Expected(e)

DocsOK(e) ==
  CASE e.op = "cycle" -> e.err = 0 /\ e.doc.type = 1 /\ e.doc.f = DocOf(st.feats[e.f])
    [] e.op = "ccycle" -> /\ e.err = 0 /\ e.doc.type = 1
                          /\ e.doc.bbox = st.colls[e.c].bbox /\ e.doc.crs = st.colls[e.c].crs
                          /\ e.doc.feats = [k \in DOMAIN st.colls[e.c].feats |-> [type |-> 1, f |-> DocOf(st.feats[st.colls[e.c].feats[k]])]]
    [] OTHER -> TRUE
GetOK(e) == LET v == st.feats[e.f].props[e.k] IN
  IF e.must = 1 THEN e.res = MustAccess(v, e.acc, e.defs)
  ELSE LET r == Access(v, e.acc) IN e.err = r[2] /\ (r[2] = 0 => e.res = r[1])

\* the verdict names J04 for property access and for properties that are not what was set
PropsOf(fs) == [k \in DOMAIN fs |-> fs[k].props]
Verdict(e) ==
  IF e.pn # 0 THEN IF e.op \in {"get", "prop"} THEN {"J04"} ELSE {"J03"}
  ELSE LET w == Wanted(e) IN
       (IF e.op = "get" /\ ~GetOK(e) THEN {"J04"} ELSE {})
  \cup (IF e.obs # w THEN {"J03"} ELSE {})
  \cup (IF PropsOf(e.obs.feats) # PropsOf(w.feats) THEN {"J04"} ELSE {})
  \cup (IF ~DocsOK(e) THEN {"J03"} ELSE {})
Flags(e) == [k \in DOMAIN e.obs.feats |-> IF k \in DOMAIN made THEN made[k] ELSE IF e.op = "new" THEN 1 ELSE IF e.op = "twin" THEN made[e.f] ELSE 0]
Next ==
  /\ i < Len(Trace[h].ev)
  /\ i' = i + 1 /\ h' = h
  /\ LET e == Trace[h].ev[i + 1] IN
     /\ Report(h, i + 1, Verdict(e))
     /\ st' = e.obs /\ made' = Flags(e)
=============================================================================
