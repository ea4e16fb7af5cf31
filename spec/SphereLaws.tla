------------------------------ MODULE SphereLaws ------------------------------
(***************************************************************************)
(* The table and the exact cases are right: trigonometric identities on    *)
(* every pair of whole degrees, and the exact arcs, azimuths and           *)
(* destinations satisfy the general rules and each other on a grid.        *)
(***************************************************************************)
EXTENDS Sphere, TLC
CONSTANTS STEP
VARIABLES a, b, g
Init == a = -90 /\ b = -90 /\ g = 0
Next == \/ a < 90 /\ b = -90 /\ g = 0 /\ a' = a + STEP /\ UNCHANGED <<b, g>>
        \/ b < 90 /\ g = 0 /\ b' = b + STEP /\ UNCHANGED <<a, g>>
        \/ g < 360 - STEP /\ g' = g + STEP /\ UNCHANGED <<a, b>>
Near(x, y) == Abs(x - y) <= 3
Pythagoras == Near(Mul(SinDeg(a), SinDeg(a)) + Mul(CosDeg(a), CosDeg(a)), SC)
Addition == /\ Near(SinDeg(a + g), Mul(SinDeg(a), CosDeg(g)) + Mul(CosDeg(a), SinDeg(g)))
            /\ Near(CosDeg(a + g), Mul(CosDeg(a), CosDeg(g)) - Mul(SinDeg(a), SinDeg(g)))
Anchors == SinDeg(30) = SC \div 2 /\ SinDeg(90) = SC /\ SinDeg(0) = 0
P == <<10000, 1000 * a>>
Q == <<10000 + 1000 * g, 1000 * b>>
ArcLaw == LET x == ExactArc(P, Q) y == KnownArc(P, Q) IN
          /\ x >= 0 => CosineRule(P, Q, ArcCm(x)) /\ x <= Half /\ x = ExactArc(Q, P)
          /\ y >= 0 => CosineRule(P, Q, ArcCm(y)) /\ y = KnownArc(Q, P)
          /\ x >= 0 /\ y >= 0 => x = y
AzLaw == LET x == ExactArc(P, Q) z == ExactAz(P, Q) IN
         x >= 0 /\ z >= 0 => SineRule(P, Q, ArcCm(x), z) /\ AzimuthRule(P, Q, ArcCm(x), z)
\* travelling along the exact azimuth for the exact arc arrives
DestLaw == LET x == ExactArc(P, Q) z == ExactAz(P, Q) IN
           x > 0 /\ z >= 0 =>
             LET r == ExactDest(P, z, x) IN
             /\ r # <<>>
             /\ r[2] = Q[2]
             /\ Abs(Q[2]) # 90000 => Norm(r[1]) = Norm(Q[1])
ArcInverse == \A m \in {1000 * Abs(a) + g, 400 * g, Half - g} : m >= 0 => Abs(ArcOf(ArcCm(m)) - m) <= 1
==============================================================================
