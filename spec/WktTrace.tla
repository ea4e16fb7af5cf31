------------------------------ MODULE WktTrace ------------------------------
EXTENDS Wkt, Lanes
SameGeom(a, b) == a.kind = b.kind /\ a.dim = b.dim /\ a.v = b.v
W01OK(e) ==
  /\ e.pn = 0
  /\ NoBlanks(e.toks) = Written(e.g.kind, e.g.v)
  /\ LET m == Meaning(NoBlanks(e.toks)) IN m.class = "ok" /\ SameGeom(m, e.g)
  /\ e.err = 0 /\ SameGeom(e.back, e.g)
\* the words between the bracket after a keyword and the last closing bracket
Heads(ts) == {i \in 1..(Len(ts) - 1) : ts[i] \in 1..9 /\ ts[i + 1] = OP}
Inside(ts, h) == LET t == CHOOSE i \in DOMAIN ts : ts[i] = CL /\ \A j \in DOMAIN ts : ts[j] = CL => j <= i
              IN SubSeq(ts, h + 2, t)
Opened(r) == IF Len(r) > 1 /\ r[1] = r[Len(r)] THEN {r, SubSeq(r, 1, Len(r) - 1)} ELSE {r}
StartsAt(w, p, r) == p + Len(r) <= Len(w) /\ \A i \in DOMAIN r : w[p + i] = r[i]
\* how much of w may be used up by the rings rs, each with or without its closing position
RECURSIVE Used(_, _, _)
Used(rs, w, ps) == IF rs = <<>> \/ ps = {} THEN ps
                   ELSE Used(Tail(rs), w, UNION {{p + Len(Concat(r)) : r \in {q \in Opened(rs[1]) : StartsAt(w, p, Concat(q))}} : p \in ps})
Lists(w, g) == CASE g.kind = 5 -> Len(w) \in Used(g.v, w, {0})
                 [] g.kind = 6 -> Len(w) \in Used(Concat(g.v), w, {0})
                 [] OTHER -> w = Concat(Flat(g.v, Depth[g.kind]))
\* a text outside the grammar may be refused, or be read as what it lists
Faithful(ts, g) ==
  LET b == NoBlanks(ts) IN
  /\ \E i \in DOMAIN b : b[i] = CL
  /\ \E h \in Heads(b) : LET w == SelectSeq(Inside(b, h), IsWord) IN
     /\ \A i \in DOMAIN w : IsNum(w[i])
     /\ Lists([i \in DOMAIN w |-> w[i] - 100], g)
W02OK(e) ==
  IF e.op = "raw" THEN e.pn = 0 /\ (e.err = 0 => e.nil = 0)
  ELSE LET m == Meaning(e.toks) IN
       /\ e.pn = 0
       /\ e.err = 0 => e.nil = 0 /\ e.back.kind \in 1..6
       /\ CASE m.class = "ok" -> e.err = 0 /\ SameGeom(e.back, m)
            [] m.class = "error" -> e.err = 1
            [] OTHER -> e.err = 1 \/ Faithful(e.toks, e.back)
Bad(e) == IF e.op = "encode" THEN IF W01OK(e) THEN {} ELSE {"W01"}
          ELSE IF W02OK(e) THEN {} ELSE {"W02"}
Init == LaneInit(Bad)
Next == LaneNext(Bad)
=============================================================================
