----------------------------- MODULE SphereTrace -----------------------------
(***************************************************************************)
(* Conformance of the great-circle functions (D01).  Distances are         *)
(* recorded in centimetres (fine ones in micrometres), azimuths in         *)
(* microdegrees; a value that is not a number is recorded as 2147000000.   *)
(***************************************************************************)
EXTENDS Sphere, Lanes
BadNum == 2147000000
Num(v) == v # BadNum
Azm(az) == az \div 1000
AngDiff(x, y) == LET d == (x - y) % 360000000 IN Min(d, 360000000 - d)
PairOK(e) ==
  LET p == e.p q == e.q x == ExactArc(p, q) y == KnownArc(p, q) z == ExactAz(p, q) IN
  /\ \A v \in {e.d, e.dr, e.g, e.gr, e.pd} : Num(v) /\ v >= 0
  /\ Abs(e.d - e.dr) <= 1 /\ Abs(e.g - e.gr) <= 1 /\ e.pd = e.d
  /\ Abs(e.d - e.g) <= 100
  /\ x >= 0 => Abs(e.d - ArcCm(x)) <= 30
  /\ y >= 0 => Abs(e.d - ArcCm(y)) <= 30
  /\ p = q => e.d = 0 /\ e.g <= 20
  /\ CosineRule(p, q, e.d)
  /\ Num(e.az) /\ e.azin = 1
  /\ SineRule(p, q, e.d, Azm(e.az)) /\ AzimuthRule(p, q, e.d, Azm(e.az))
  /\ z >= 0 => AngDiff(e.az, 1000 * z) <= 1
\* short arcs, along a meridian or the equator, in micrometres
FineOK(e) == /\ Num(e.d) /\ Abs(e.d - ArcUm(e.u)) <= 5
             /\ e.dr = e.d /\ Num(e.g) /\ Abs(e.g - ArcUm(e.u)) <= 300000
\* planar distance everywhere but for GPS: whole squares, exactly
PlanarOK(e) == LET dx == e.p[1] - e.q[1] dy == e.p[2] - e.q[2] IN
               \A k \in DOMAIN e.d2 : e.d2[k] = dx * dx + dy * dy
\* travelling: end position in microdegrees
DestOK(e) ==
  LET r == ExactDest(e.p, e.brg, e.m) IN
  /\ Num(e.lon) /\ Num(e.lat) /\ Num(e.d) /\ e.lonin = 1
  /\ Abs(e.lat) <= 90000000
  /\ Abs(e.d - ArcCm(e.m)) <= 50
  /\ e.m > 0 /\ e.m < Half /\ Abs(e.p[2]) <= 89000 /\ Abs(e.lat) <= 89000000
       => Num(e.az) /\ AngDiff(e.az, 1000 * e.brg) <= 100
  /\ r # <<>> => /\ Abs(e.lat - 1000 * r[2]) <= IF Abs(r[2]) > 89900 THEN 4 ELSE 1
                 /\ Abs(r[2]) < 90000 => AngDiff(e.lon, 1000 * Norm(r[1])) <= IF Abs(r[2]) > 89900 THEN 10 ELSE 1
\* short journeys, in micrometres
DestFineOK(e) == /\ Num(e.d) /\ Abs(e.d - e.um) <= 20
                 /\ e.lonin = 1
                 /\ e.um >= 1000000 => Num(e.az) /\ AngDiff(e.az, 1000 * e.brg) <= 20
\* positions given as doubles: only totality, range, symmetry and the agreement of the formulas
RawOK(e) == /\ \A v \in {e.d, e.dr, e.g, e.gr} : Num(v) /\ v >= 0 /\ v <= 2001508680
            /\ Abs(e.d - e.dr) <= 1 /\ Abs(e.g - e.gr) <= 1
            /\ Abs(e.d - e.g) <= 100
            /\ e.az = 1 /\ e.azb = 1
            /\ e.other = <<0, 0, 0>>
Allowed(e) == CASE e.op = "pair" -> PairOK(e) [] e.op = "fine" -> FineOK(e) [] e.op = "planar" -> PlanarOK(e)
              [] e.op = "dest" -> DestOK(e) [] e.op = "destfine" -> DestFineOK(e) [] OTHER -> RawOK(e)
Bad(e) == IF Allowed(e) THEN {} ELSE {"D01"}
Init == LaneInit(Bad)
Next == LaneNext(Bad)
=============================================================================
