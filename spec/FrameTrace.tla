----------------------------- MODULE FrameTrace -----------------------------
(***************************************************************************)
(* Conformance of calculations as pure functions on a shared memory.       *)
(* mem holds, to the bit, every array the caller owns (coordinates, and    *)
(* the headers of rings, lines and polygons as array+offset:length:        *)
(* capacity, spare capacity included) followed by the results of earlier   *)
(* calls that are still alive.  Calls leave all of it unchanged; only the  *)
(* caller writes.  memo holds what a call gave for the values of its       *)
(* arguments: the same values give the same result, in the same storage or *)
(* in storage of their own, alone or while other calls run.                *)
(***************************************************************************)
EXTENDS Hist
CONSTANT W
VARIABLES h, i, mem, memo
Init == h \in DOMAIN Trace /\ i = 0 /\ mem = Trace[h].mem /\ memo = <<>>
Base(t) == Len(Trace[t].mem)         \* the caller's arrays; later cells are results

\* what the observed changes make of memory
Changed(m, chg) == [a \in DOMAIN m |-> [c \in DOMAIN m[a] |->
                     IF \E x \in DOMAIN chg : chg[x][1] = a /\ chg[x][2] = c
                     THEN LET x == CHOOSE x \in DOMAIN chg : chg[x][1] = a /\ chg[x][2] = c IN chg[x][3]
                     ELSE m[a][c]]]
\* what the specification makes of it
Own(m) == SubSeq(m, 1, Base(h))
Write(m, e) == [Own(m) EXCEPT ![e.a][e.i] = e.v]
Call(m, e) == m \o [k \in DOMAIN e.new |-> <<e.new[k]>>]
Known(k) == k \in DOMAIN memo
Agrees(k, r) == Known(k) => memo[k] = r

Verdict(e) ==
  CASE e.op = "write" -> IF Changed(Own(mem), e.chg) = Write(mem, e) THEN {} ELSE {"PRE"}
    [] e.op = "call" -> IF /\ Changed(mem, e.chg) = mem
                           /\ Agrees(e.key, e.res)
                           /\ e.tw \in {"-", e.res}
                        THEN {} ELSE {"G09"}
    [] e.op = "par" -> IF /\ Changed(mem, e.chg) = mem
                          /\ \A c \in DOMAIN e.calls :
                               /\ Agrees(e.calls[c].key, e.calls[c].alone)
                               /\ \A r \in DOMAIN e.calls[c].res : e.calls[c].res[r] = e.calls[c].alone
                       THEN {} ELSE {"G09"}
    [] OTHER -> {"PRE"}

Next ==
  /\ i < Len(Trace[h].ev)
  /\ i' = i + 1 /\ h' = h
  /\ LET e == Trace[h].ev[i + 1] IN
     /\ Report(h, i + 1, Verdict(e))
     /\ mem' = IF e.op = "write" THEN Write(mem, e) ELSE IF e.op = "call" THEN Call(Changed(mem, e.chg), e) ELSE Changed(mem, e.chg)
     /\ memo' = IF e.op = "call" /\ ~Known(e.key) THEN memo @@ (e.key :> e.res) ELSE memo
=============================================================================
