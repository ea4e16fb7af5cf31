------------------------------ MODULE KindsGen ------------------------------
(***************************************************************************)
(* All short histories of one geometry of each kind, for the library to    *)
(* replay; its values stay of their kind's shape.                          *)
(***************************************************************************)
EXTENDS Kinds, TLC, Json
CONSTANTS L
VARIABLES kind, v, ops
Pt(k, n) == IF Dim(k) = 2 THEN <<n, 10 + n>> ELSE <<n, 10 + n, 20 + n>>
Tri(k, n) == <<Pt(k, n), Pt(k, n + 1), Pt(k, n + 2), Pt(k, n)>>
Open(k, n) == <<Pt(k, n), Pt(k, n + 1)>>
\* parts a geometry of the kind is made of
Parts(k) == CASE Depth(k) = 1 -> {Pt(k, 1), Pt(k, 4)}
              [] Depth(k) = 2 -> {Tri(k, 1), Open(k, 5), <<>>}
              [] OTHER -> {<<Tri(k, 1), Tri(k, 5)>>, <<Open(k, 3)>>, <<>>}
Starts(k) == IF Depth(k) = 0 THEN {Pt(k, 3), Pt(k, 0)}
             ELSE {<<>>} \cup {<<a>> : a \in Parts(k)} \cup {<<a, b>> : a \in Parts(k), b \in Parts(k)}
Steps(k) == {<<"set", x, 7>> : x \in 1..3} \cup {<<"set", x, -2>> : x \in 1..3}
            \cup (IF k \in Growing THEN {<<"add", a>> : a \in Parts(k)} ELSE {})
            \cup (IF k \in Shelled THEN {<<"shell", a>> : a \in Parts(k)} ELSE {})
Init == \E k \in AllKinds :
          /\ kind = k
          /\ \/ \E s \in Starts(k) : v = s /\ ops = <<<<"make", k, s>>>>
             \/ k \in Shelled /\ \E s \in {Open(k, 1) \o <<Pt(k, 9)>>, Tri(k, 4)} : v = Do(<<>>, <<"pois", k, s>>) /\ ops = <<<<"pois", k, s>>>>
Next == /\ Len(ops) < L
        /\ \E op \in Steps(kind) : /\ Can(kind, op)
                                   /\ v' = Do(v, op) /\ ops' = Append(ops, op) /\ kind' = kind
InShape == Shaped(v, Depth(kind), Dim(kind))
\* the shell and the holes are all the rings there are
Whole == kind \in Shelled /\ v # <<>> => <<Views(kind, v)[1]>> \o Views(kind, v)[3] = v
Emit == (Len(ops) = L \/ ~\E op \in Steps(kind) : Can(kind, op)) => PrintT(<<"BEHAVIOUR", ToJson(ops)>>)
=============================================================================
