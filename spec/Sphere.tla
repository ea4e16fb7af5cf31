------------------------------- MODULE Sphere --------------------------------
(***************************************************************************)
(* The sphere of radius 6371000 m on integers.  Positions are <<lon, lat>> *)
(* in millidegrees.  Arcs along meridians (over the poles as well) and     *)
(* along the equator are exact; the spherical cosine, sine and azimuth     *)
(* formulas are checked with a sine table of scale SC.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences

Abs(x) == IF x < 0 THEN -x ELSE x
Min(a, b) == IF a < b THEN a ELSE b
Full == 360000
Half == 180000
Norm(d) == d % Full
\* angle between two longitudes, 0..180000
DLon(p, q) == LET d == Norm(q[1] - p[1]) IN Min(d, Full - d)
\* arc in millidegrees where it is exact, else -1
ExactArc(p, q) ==
  LET d == DLon(p, q) IN
  CASE d = 0 -> Abs(p[2] - q[2])
    [] d = Half -> Half - Abs(p[2] + q[2])
    [] p[2] = 0 /\ q[2] = 0 -> d
    [] Abs(p[2]) = 90000 \/ Abs(q[2]) = 90000 -> Abs(p[2] - q[2])
    [] OTHER -> -1
\* m millidegrees of arc in centimetres: 6371000 pi / 180 / 10 = 11119.49266445...
ArcCm(m) == m * 11119 + (m * 4926) \div 10000 + (m * 6445) \div 100000000
\* u microdegrees of arc in micrometres: 111194.926644558...
ArcUm(u) == u * 111194 + (u * 9266) \div 10000 + (u * 4456) \div 100000000

(*------------------------------- sine table -------------------------------*)
SC == 32768
Sines == <<572, 1144, 1715, 2286, 2856, 3425, 3993, 4560, 5126, 5690, 6252, 6813, 7371, 7927, 8481, 9032, 9580, 10126, 10668, 11207, 11743, 12275, 12803, 13328, 13848, 14365, 14876, 15384, 15886, 16384, 16877, 17364, 17847, 18324, 18795, 19261, 19720, 20174, 20622, 21063, 21498, 21926, 22348, 22763, 23170, 23571, 23965, 24351, 24730, 25102, 25466, 25822, 26170, 26510, 26842, 27166, 27482, 27789, 28088, 28378, 28660, 28932, 29197, 29452, 29698, 29935, 30163, 30382, 30592, 30792, 30983, 31164, 31336, 31499, 31651, 31795, 31928, 32052, 32166, 32270, 32365, 32449, 32524, 32588, 32643, 32688, 32723, 32748, 32763, 32768>>
\* sine of k whole degrees, any k
SinDeg(k) == LET a == k % 360 IN
             IF a = 0 \/ a = 180 THEN 0
             ELSE IF a <= 90 THEN Sines[a] ELSE IF a < 180 THEN Sines[180 - a]
             ELSE IF a <= 270 THEN -Sines[a - 180] ELSE -Sines[360 - a]
CosDeg(k) == SinDeg(k + 90)
\* sine of m millidegrees, by interpolation (error below 2 units of SC)
SinM(m) == LET k == m \div 1000 f == m % 1000 IN
           SinDeg(k) + ((SinDeg(k + 1) - SinDeg(k)) * f) \div 1000
CosM(m) == SinM(m + 90000)
Mul(a, b) == (a * b) \div SC
\* the arc in millidegrees of a distance in centimetres
ArcOf(cm) == (cm \div 111195) * 10 + ((cm % 111195) * 10) \div 111195 + (cm \div 111195) \div 21905
Close(a, b) == Abs(a - b) <= 14
\* distance cm and azimuth azm (millidegrees) are those from p to q
CosineRule(p, q, cm) == Close(CosM(ArcOf(cm)),
   Mul(SinM(p[2]), SinM(q[2])) + Mul(Mul(CosM(p[2]), CosM(q[2])), CosM(q[1] - p[1])))
SineRule(p, q, cm, azm) == Close(Mul(SinM(azm), SinM(ArcOf(cm))), Mul(SinM(q[1] - p[1]), CosM(q[2])))
AzimuthRule(p, q, cm, azm) == Close(Mul(CosM(azm), SinM(ArcOf(cm))),
   Mul(CosM(p[2]), SinM(q[2])) - Mul(Mul(SinM(p[2]), CosM(q[2])), CosM(q[1] - p[1])))
\* arcs known exactly off the meridians and the equator: cos c is 0, 1/2 or -1/2
KnownArc(p, q) ==
  LET d == DLon(p, q) a == p[2] b == q[2] IN
  CASE d = 90000 /\ (a = 0 \/ b = 0) -> 90000
    [] d = 90000 /\ a = b /\ Abs(a) = 45000 -> 60000
    [] d = 90000 /\ a = -b /\ Abs(a) = 45000 -> 120000
    [] OTHER -> -1
\* the azimuth (millidegrees) where it is exact, else -1
ExactAz(p, q) ==
  LET d == Norm(q[1] - p[1]) IN
  CASE d = 0 /\ p[2] # q[2] -> IF q[2] > p[2] THEN 0 ELSE Half
    [] d = Half /\ p[2] + q[2] # 0 /\ Abs(p[2]) # 90000 -> IF p[2] + q[2] > 0 THEN 0 ELSE Half
    [] d # 0 /\ d # Half /\ p[2] = 0 /\ q[2] = 0 -> IF d < Half THEN 90000 ELSE 270000
    [] OTHER -> -1
\* travelling m millidegrees of arc where it is exact: due north or south anywhere, due east or west on the equator
Fold(lon, lat) == IF lat > 90000 THEN <<lon + Half, Half - lat>>
                  ELSE IF lat < -90000 THEN <<lon + Half, -Half - lat>> ELSE <<lon, lat>>
ExactDest(p, brg, m) ==
  CASE brg = 0 -> Fold(p[1], p[2] + m)
    [] brg = Half -> Fold(p[1], p[2] - m)
    [] p[2] = 0 /\ brg = 90000 -> <<p[1] + m, 0>>
    [] p[2] = 0 /\ brg = 270000 -> <<p[1] - m, 0>>
    [] OTHER -> <<>>
==============================================================================
