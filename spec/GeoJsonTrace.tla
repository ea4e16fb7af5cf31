---------------------------- MODULE GeoJsonTrace ----------------------------
EXTENDS GeoJson, Lanes
Decodable == {1, 3, 5}
\* kinds, dimensions and nesting of bogus results may be anything
Same(b, kind, dim, v) == b.kind = kind /\ (dim = 0 \/ b.dim = dim) /\ b.v = v
J01OK(e) ==
  /\ e.pn = 0 /\ e.eerr = 0
  /\ e.typ = e.g.kind /\ e.toks = Encoded(e.g.kind, e.g.v)
  /\ IF e.g.kind \in Decodable THEN e.err = 0 /\ Same(e.back, e.g.kind, e.g.dim, e.g.v)
     ELSE e.err = 1 \/ Same(e.back, e.g.kind, e.g.dim, e.g.v)
\* a feature keeps its geometry through a cycle
J03OK(e) ==
  /\ e.pn = 0 /\ e.eerr = 0 /\ e.err = 0
  /\ e.typ = e.g.kind /\ e.typ2 = e.g.kind
  /\ e.toks = Encoded(e.g.kind, e.g.v) /\ e.toks2 = e.toks
  /\ e.g.kind \in Decodable => e.nil = 0 /\ Same(e.back, e.g.kind, e.g.dim, e.g.v)
J02OK(e) ==
  IF e.op = "raw" THEN e.pn = 0 /\ (e.err = 1 => e.nil = 1)
  ELSE LET m == Meaning(e.typ, e.toks) IN
       /\ e.pn = 0
       /\ e.err = 1 <=> e.nil = 1
       /\ CASE m.class = "error" -> e.err = 1
            [] m.class = "ok" -> e.err = 0 /\ Same(e.back, m.kind, m.dim, m.v)
            [] OTHER -> e.err = 1 \/ Same(e.back, m.kind, m.dim, m.v)
Bad(e) == IF e.op = "encode" THEN IF J01OK(e) THEN {} ELSE {"J01"}
          ELSE IF e.op = "feature" THEN IF J03OK(e) THEN {} ELSE {"J03"}
          ELSE IF J02OK(e) THEN {} ELSE {"J02"}
Init == LaneInit(Bad)
Next == LaneNext(Bad)
=============================================================================
