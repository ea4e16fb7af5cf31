-------------------------------- MODULE Kinds --------------------------------
(***************************************************************************)
(* The kinds of geometry as values (T01): a kind has a dimension (2 or 3)  *)
(* and a depth of nesting; a value is points nested in that many           *)
(* sequences.  Constructors keep their parts, the setters of a point       *)
(* replace one coordinate, parts are added at the end, and the accessors   *)
(* show the parts there are.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences
Plain == {"Point", "MultiPoint", "LineString", "MultiLineString", "Polygon", "MultiPolygon"}
Solid == {"PointZ", "MultiPointZ", "LineStringZ", "MultiLineStringZ", "PolygonZ", "MultiPolygonZ"}
AllKinds == Plain \cup Solid
Dim(k) == IF k \in Plain THEN 2 ELSE 3
Depth(k) == CASE k \in {"Point", "PointZ"} -> 0
              [] k \in {"MultiPoint", "MultiPointZ", "LineString", "LineStringZ"} -> 1
              [] k \in {"MultiLineString", "MultiLineStringZ", "Polygon", "PolygonZ"} -> 2
              [] OTHER -> 3
Growing == {"MultiPoint", "MultiPointZ", "LineString", "LineStringZ", "Polygon", "PolygonZ", "MultiPolygon", "MultiPolygonZ"}
Shelled == {"Polygon", "PolygonZ"}
RECURSIVE Shaped(_, _, _)
Shaped(v, depth, dim) == IF depth = 0 THEN Len(v) = dim ELSE \A i \in DOMAIN v : Shaped(v[i], depth - 1, dim)
Closed(pts) == IF pts[1] = pts[Len(pts)] THEN pts ELSE Append(pts, pts[1])
\* the operations: <<name, arguments...>>
Can(k, op) == CASE op[1] = "set" -> Depth(k) = 0 /\ op[2] <= Dim(k)
                [] op[1] = "add" -> k \in Growing
                [] op[1] = "shell" -> k \in Shelled
                [] OTHER -> TRUE
Do(v, op) == CASE op[1] = "make" -> op[3]
               [] op[1] = "pois" -> <<Closed(op[3])>>
               [] op[1] = "set" -> [v EXCEPT ![op[2]] = op[3]]
               [] op[1] = "add" -> Append(v, op[2])
               [] OTHER -> IF v = <<>> THEN <<op[2]>> ELSE [v EXCEPT ![1] = op[2]]
\* what the accessors show; no first and last point below two points
Views(k, v) ==
  CASE Depth(k) = 1 -> IF k = "LineStringZ" THEN <<v, Len(v), IF Len(v) < 2 THEN <<>> ELSE v[1], IF Len(v) < 2 THEN <<>> ELSE v[Len(v)]>>
                       ELSE IF k = "LineString" THEN <<v, Len(v), IF Len(v) < 2 THEN <<>> ELSE <<v[1]>>, IF Len(v) < 2 THEN <<>> ELSE <<v[Len(v)]>>>>
                       ELSE <<v>>
    [] k \in Shelled -> <<IF v = <<>> THEN <<>> ELSE v[1], IF v = <<>> THEN <<>> ELSE v[1], IF v = <<>> THEN <<>> ELSE Tail(v)>>
    [] OTHER -> <<>>
=============================================================================
