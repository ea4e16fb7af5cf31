----------------------------- MODULE GeohashLaws -----------------------------
(***************************************************************************)
(* Laws of the grid, for every cell of the precisions up to PMAX (each     *)
(* state is one cell), and along its lower-left, middle and upper corner.  *)
(***************************************************************************)
EXTENDS Geohash, TLC
CONSTANTS PMAX
VARIABLES p, c, r
Init == p = 1 /\ c = 0 /\ r = 0
Next == \/ c < P2[LonBits(p)] - 1 /\ c' = c + 1 /\ UNCHANGED <<p, r>>
        \/ c = 0 /\ r < P2[LatBits(p)] - 1 /\ r' = r + 1 /\ UNCHANGED <<p, c>>
        \/ c = 0 /\ r = 0 /\ p < PMAX /\ p' = p + 1 /\ UNCHANGED <<c, r>>
I == c * Wid(p)
J == r * Hgt(p)
Corners == {<<I, J>>, <<I + Wid(p) \div 2, J + Hgt(p) \div 2>>, <<I + Wid(p) - 1, J + Hgt(p) - 1>>}
BitsAre == \A k \in Corners :
             LET b == Bisect(k[1], k[2], 0, 5 * p, <<0, P2[30]>>, <<0, P2[30]>>)
             IN \A t \in 0..(5 * p - 1) : b[t + 1] = HashBit(k[1], k[2], t)
\* the hash names the cell: same for all its points, and different digits elsewhere
Names == \A k \in Corners : Hash(k[1], k[2], p) = Hash(I, J, p) /\ Cell(k[1], k[2], p) = Cell(I, J, p)
Prefix == \A q \in 1..p : SubSeq(Hash(I, J, p), 1, q) = Hash(I, J, q)
\* neighbours are mutual, and the eight are distinct when the row has at least three cells
Opp(k) == ((k + 3) % 8) + 1
Mutual == InnerRow(J, p) => \A k \in 1..8 :
            LET s == Shift(I, J, p, Around[k][1], Around[k][2])
                o == Shift(s[1], s[2], p, Around[Opp(k)][1], Around[Opp(k)][2])
            IN o = <<I, J>>
Distinct == InnerRow(J, p) => \A k, m \in 1..8 : k # m => Neighbours(I, J, p)[k] # Neighbours(I, J, p)[m]
=============================================================================
