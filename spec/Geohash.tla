------------------------------- MODULE Geohash -------------------------------
(***************************************************************************)
(* The geohash grid on integers.  The finest grid (precision 12) has 2^30  *)
(* columns from longitude -180 and 2^30 rows from latitude -90; a position *)
(* is a column i, a row j and a place within that cell.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences

Alphabet == <<"0","1","2","3","4","5","6","7","8","9","b","c","d","e","f","g",
              "h","j","k","m","n","p","q","r","s","t","u","v","w","x","y","z">>
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
P2 == [n \in 0..30 |-> Pow2(n)]
Bit(v, k) == (v \div P2[k]) % 2
\* the t-th bit of the hash (t = 0 first): longitude and latitude alternate
HashBit(i, j, t) == IF t % 2 = 0 THEN Bit(i, 29 - t \div 2) ELSE Bit(j, 29 - t \div 2)
Digit(i, j, q) == LET b(s) == HashBit(i, j, 5 * (q - 1) + s) IN
                  16 * b(0) + 8 * b(1) + 4 * b(2) + 2 * b(3) + b(4)
Hash(i, j, p) == [q \in 1..p |-> Alphabet[Digit(i, j, q) + 1]]
LonBits(p) == (5 * p + 1) \div 2
LatBits(p) == (5 * p) \div 2
Wid(p) == P2[30 - LonBits(p)]
Hgt(p) == P2[30 - LatBits(p)]
\* the cell of precision p around (i, j): lowest column and row, highest column and row (exclusive)
Cell(i, j, p) == LET w == Wid(p) h == Hgt(p) x == (i \div w) * w y == (j \div h) * h IN
                 <<x, y, x + w, y + h>>
\* neighbours: column wraps, row does not
Shift(i, j, p, dx, dy) ==
  LET n == P2[LonBits(p)] c == ((i \div Wid(p)) + dx) % n
  IN <<c * Wid(p), (j \div Hgt(p) + dy) * Hgt(p)>>
Around == <<<<0, 1>>, <<1, 1>>, <<1, 0>>, <<1, -1>>, <<0, -1>>, <<-1, -1>>, <<-1, 0>>, <<-1, 1>>>>
InnerRow(j, p) == LET k == j \div Hgt(p) IN k > 0 /\ k < P2[LatBits(p)] - 1
Neighbours(i, j, p) == [k \in 1..8 |-> LET s == Shift(i, j, p, Around[k][1], Around[k][2])
                                       IN Hash(s[1], s[2], p)]

(*--------------- a second definition: repeated bisection ------------------*)
RECURSIVE Bisect(_, _, _, _, _, _)
\* the bits of (i, j), halving the column range on even and the row range on odd turns
Bisect(i, j, t, n, c, r) ==
  IF t = n THEN <<>>
  ELSE IF t % 2 = 0
       THEN LET m == c[1] + (c[2] - c[1]) \div 2 IN
            IF i >= m THEN <<1>> \o Bisect(i, j, t + 1, n, <<m, c[2]>>, r)
            ELSE <<0>> \o Bisect(i, j, t + 1, n, <<c[1], m>>, r)
       ELSE LET m == r[1] + (r[2] - r[1]) \div 2 IN
            IF j >= m THEN <<1>> \o Bisect(i, j, t + 1, n, c, <<m, r[2]>>)
            ELSE <<0>> \o Bisect(i, j, t + 1, n, c, <<r[1], m>>)
==============================================================================
