------------------------------ MODULE OffsetGen ------------------------------
(***************************************************************************)
(* Every limit of the window from below, on it and from above, with the    *)
(* other coordinate at its limits, inside and outside; and the places of   *)
(* the table.  Each state is a position for the library to convert.        *)
(***************************************************************************)
EXTENDS Offset, TLC, Json
CONSTANTS EMIT
VARIABLES i, j, k
Lons == {Window[1] + s : s \in {-1, 0, 1, -2000, 2000}} \cup {Window[2] + s : s \in {-1, 0, 1, -2000, 2000}} \cup {200000000, 0, -200000000, 360000000, -360000000}
Lats == {Window[3] + s : s \in {-1, 0, 1, -2000, 2000}} \cup {Window[4] + s : s \in {-1, 0, 1, -2000, 2000}} \cup {60000000, 0, -60000000, 180000000, -180000000}
Init == k = 0 /\ i \in Lons /\ j \in Lats
Next == k = 0 /\ i = 0 /\ j = 0 /\ k' \in 1..Len(Table) /\ UNCHANGED <<i, j>>
\* the window is an open rectangle: moving a position away from the middle never brings it in
Toward(v, m) == IF v < m THEN v + 1 ELSE IF v > m THEN v - 1 ELSE v
OpenLaw == k = 0 /\ Inside(i, j) => Inside(Toward(i, 208710000), j) /\ Inside(i, Toward(j, 57410000))
EdgeLaw == k = 0 /\ (i \in {Window[1], Window[2]} \/ j \in {Window[3], Window[4]}) => ~Inside(i, j)
TableLaw == k > 0 => LET r == Table[k] IN
            /\ Inside(2000 * r[1], 2000 * r[2])
            /\ (r[3] \div 10) * (r[3] \div 10) + (r[4] \div 10) * (r[4] \div 10) \in 1..399999999
Emit == EMIT => IF k = 0 THEN PrintT(<<"BEHAVIOUR", ToJson(<<0, i, j>>)>>)
                ELSE PrintT(<<"BEHAVIOUR", ToJson(<<k, 2000 * Table[k][1], 2000 * Table[k][2]>>)>>)
==============================================================================
