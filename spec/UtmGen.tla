------------------------------- MODULE UtmGen --------------------------------
(***************************************************************************)
(* Every limit of the grid, from below, on it and from above; each state   *)
(* is one position, the laws are checked on it, and it is emitted for the  *)
(* library to answer.                                                      *)
(***************************************************************************)
EXTENDS Utm, TLC, Json
CONSTANTS EMIT
VARIABLES r, s, c, t
LatLimits == <<-80, -72, -64, -56, -48, -40, -32, -24, -16, -8, 0, 8, 16, 24, 32, 40, 48, 56, 60, 64, 72, 78, 80, 84>>
LA == LatLimits[r] * Deg + s
LO == (c * 3 - 180) * Deg + t
Init == r = 1 /\ s = -1 /\ c = 0 /\ t = -1
Next == \/ r < Len(LatLimits) /\ s = -1 /\ c = 0 /\ t = -1 /\ r' = r + 1 /\ UNCHANGED <<s, c, t>>
        \/ s < 1 /\ c = 0 /\ t = -1 /\ s' = s + 1 /\ UNCHANGED <<r, c, t>>
        \/ c < 120 /\ t = -1 /\ c' = c + 1 /\ UNCHANGED <<r, s, t>>
        \/ t < 1 /\ t' = t + 1 /\ UNCHANGED <<r, s, c>>
Ok == InRange(LA, LO)
ZoneLaw == Ok => /\ Zone(LA, LO) \in 1..60
                 /\ {z \in 1..60 : LET x == Extent(LA, z) IN Within(Lon(LO), x[1], x[2])} = {Zone(LA, LO)}
BandLaw == Ok => {k \in 1..20 : /\ BandFrom(k) * Deg <= LA
                                /\ LA < BandFrom(k + 1) * Deg \/ k = 20} = {CHOOSE k \in 1..20 : Letters[k] = Band(LA)}
HemiLaw == Ok => (Hemi(LA) = "N") = (\E k \in 11..20 : Letters[k] = Band(LA))
\* no position is farther than 6 degrees from its central meridian
NearLaw == Ok => Abs(Lon(LO) - Central(Zone(LA, LO)) * Deg) <= 6 * Deg
\* the table: eastings shrink with latitude and grow with the offset, northings grow with both,
\* and a step of latitude on the central meridian is that of a meridian arc
Rows == 1..Len(EastCm)
TableLaw == r = 1 /\ s = -1 /\ c = 0 /\ t = -1 =>
  \A k \in Rows :
    /\ EastCm[k][1] = 0
    /\ \A m \in 1..4 : EastCm[k][m] < EastCm[k][m + 1] /\ (k > 1 => NorthCm[k][m] < NorthCm[k][m + 1])
    /\ k > 1 => \A m \in 1..5 : /\ NorthCm[k][m] > NorthCm[k - 1][m]
                                /\ m > 1 => EastCm[k][m] < EastCm[k - 1][m]
    /\ k > 1 => NorthCm[k][1] - NorthCm[k - 1][1] \in 44210000..44660000
    \* conformal: the scale along the parallel at the central meridian is that along the meridian
    /\ EastCm[k][2] \in 0..11132000
Emit == EMIT => PrintT(<<"BEHAVIOUR", ToJson(<<LA, LO>>)>>)
==============================================================================
