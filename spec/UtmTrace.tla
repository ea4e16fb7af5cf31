------------------------------ MODULE UtmTrace -------------------------------
(***************************************************************************)
(* Conformance of the UTM conversions (U01).  Eastings and northings are   *)
(* recorded in centimetres, round-trip errors in 1e-9 degree.              *)
(***************************************************************************)
EXTENDS Utm, Lanes
TOL == 10000 \* 1e-5 degree
Back(b) == Abs(b[1]) <= TOL /\ Abs(b[2]) <= TOL
PosOK(e) ==
  IF ~InRange(e.lat, e.lon) THEN e.err = 1 /\ e.errn = 1
  ELSE /\ e.err = 0 /\ e.errn = 0
       /\ e.zone = Zone(e.lat, e.lon) /\ e.zonen = e.zone
       /\ e.letter = Band(e.lat)
       /\ e.lettern = Hemi(e.lat)
       /\ e.same = 1  \* the hemisphere option changes the letter only
       /\ Back(e.byletter) /\ Back(e.bylower) /\ Back(e.byhemi)
       /\ Lon(e.lon) = Central(e.zone) * Deg => e.east = 50000000
       /\ Lon(e.lon) > Central(e.zone) * Deg => e.east >= 50000000
       /\ Lon(e.lon) < Central(e.zone) * Deg => e.east <= 50000000
       /\ e.lat >= 0 => e.north >= 0
       /\ e.lat < 0 => e.north <= 1000000000
\* two positions of one zone, the second a whole number of 10 microdegrees to the north or east
PairOK(e) ==
  /\ e.z1 = Zone(e.lat, e.lon) /\ e.z2 = e.z1
  /\ IF e.dir = "east" THEN e.e2 > e.e1
     ELSE IF e.lat < 0 /\ e.lat + 2 * e.step >= 0 THEN e.n2 < e.n1 /\ e.n2 + 1000000000 > e.n1
          ELSE e.n2 > e.n1
\* the same position in the other hemisphere, and on the other side of the central meridian
MirrorOK(e) == /\ Abs(e.n + e.ns - 1000000000) <= 1 /\ Abs(e.e - e.es) <= 1
               /\ Abs(e.e + e.ew - 100000000) <= 1 /\ Abs(e.n - e.nw) <= 1
TableOK(e) == /\ e.err = 0 /\ e.zone = e.z
              /\ Abs(Abs(e.east - 50000000) - EastCm[e.row][e.col]) <= 10
              /\ IF e.south = 1 THEN Abs(1000000000 - e.north - NorthCm[e.row][e.col]) <= 10
                 ELSE Abs(e.north - NorthCm[e.row][e.col]) <= 10
\* conversion back: eastings and northings in half centimetres
ToAccept(e) == /\ (e.letter = "") # (e.hemi = "")
               /\ 20000000 <= e.east /\ e.east < 200000000
               /\ 0 <= e.north /\ e.north <= 2000000000
               /\ e.zone \in 1..60
               /\ e.letter # "" => \E k \in DOMAIN Letters : Letters[k] = e.letter
ToOK(e) == (e.err = 0) = ToAccept(e)
NanOK(e) == \A k \in DOMAIN e.errs : e.errs[k] = 1
Allowed(e) == CASE e.op = "pos" -> PosOK(e) [] e.op = "pair" -> PairOK(e) [] e.op = "mirror" -> MirrorOK(e)
              [] e.op = "table" -> TableOK(e) [] e.op = "to" -> ToOK(e) [] OTHER -> NanOK(e)
Pre(e) == CASE e.op = "pair" -> /\ InRange(e.lat, e.lon)
                                /\ IF e.dir = "east" THEN InRange(e.lat, e.lon + 2 * e.step) /\ Zone(e.lat, e.lon) = Zone(e.lat, e.lon + 2 * e.step) /\ e.lon + 2 * e.step # 180 * Deg
                                   ELSE InRange(e.lat + 2 * e.step, e.lon) /\ Zone(e.lat, e.lon) = Zone(e.lat + 2 * e.step, e.lon)
               [] OTHER -> TRUE
Bad(e) == IF ~Pre(e) THEN {"PRE"} ELSE IF Allowed(e) THEN {} ELSE {"U01"}
Init == LaneInit(Bad)
Next == LaneNext(Bad)
=============================================================================
