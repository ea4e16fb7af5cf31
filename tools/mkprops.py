#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so anchors and wording stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
RT="The two index tests build five points once, make one search and print it; no history, no split below the root, no assertion on content."
p("R01","Box search returns exactly the stored objects that meet the box",
 "After any history of building, inserting, deleting and upserting non-empty 2-D objects, searching the spatial index with a box returns every currently stored object whose bounding box meets that box (touching edges count), each exactly as many times as it is stored, and nothing else. A search with a filter condition returns exactly those of these objects for which the condition is true.",
 ["histories","inputs","configurations"],"every operation history, object set (duplicates, overlapping, degenerate and collinear boxes), node capacity setting and query box",
 RT,["rtree.go","box.go"],[("Rtree.SearchIntersect","rtree.go"),("Rtree.SearchIntersectWithCond","rtree.go"),("adjustTree/condenseTree/computeBoundingBox keep node boxes covering","rtree.go")],
 ["SearchIntersect","SearchIntersectWithCond"],[dict(name="stored bag of objects",meaning="what the index holds",where="rtree.go: Rtree.root")])
p("R02","Deletion removes exactly the asked objects and reports truthfully",
 "Deleting an object removes exactly one stored object equal to it and returns true, or changes nothing and returns false when there is none. With a caller's comparator, the one removed matches it, and one is found whenever a matching object is stored whose box contains the given object's box. Every other stored object stays retrievable. Deleting by identifier removes all objects with that identifier, wherever they lie, and no others, and returns true exactly when at least one existed. This holds for every geometry kind and never crashes.",
 ["histories","inputs","configurations"],"every history, including deletes of absent objects, duplicate objects, shared identifiers, deletes that underflow several levels and that drain the index",
 "One delete by identifier on a five-object tree is made and its result printed; no underflow, reinsertion or root collapse is reached.",
 ["rtree.go"],[("Rtree.Delete","rtree.go"),("Rtree.DeleteWithComparator","rtree.go"),("Rtree.DeleteBySpatialID","rtree.go"),("condenseTree reinsertion","rtree.go")],["Delete","DeleteBySpatialID","DeleteWithComparator","SearchIntersect"])
p("R03","Size, identifier lookup and upsert agree with the stored content",
 "After any history on non-empty 2-D objects, the reported size equals the number of stored objects, looking up an identifier returns exactly the stored objects with that identifier, and upserting objects one after another leaves, for each identifier, exactly the last object upserted under it while every object with another identifier stays.",
 ["histories","inputs"],"every history of all mutating operations, including repeated and absent identifiers",
 "Size and lookup are printed, never asserted; upsert has no test at all.",
 ["rtree.go"],[("Rtree.Size","rtree.go"),("Rtree.SearchBySpatialID","rtree.go"),("Rtree.UpsertBySpatialID","rtree.go")],["Size","SearchBySpatialID","UpsertBySpatialID"])
p("R04","Nearest-neighbour search returns the k closest objects in order",
 "For any stored content, query point and k >= 0, nearest-neighbour search returns min(k, size) stored objects, none more often than it is stored, ordered by non-decreasing distance from the point to the object's bounding box, and no object left out is closer than one returned.",
 ["histories","inputs","configurations"],"every history, query point (inside, outside and on boxes), k including 0 and more than the size, and distance ties",
 "Nearest-neighbour search has no test.",
 ["rtree.go"],[("Rtree.NearestNeighbors","rtree.go"),("pruneEntriesMinDist","rtree.go"),("insertNearest","rtree.go")],["NearestNeighbors"])
p("R05","The reported depth and node boxes describe a balanced covering tree",
 "After any history on a non-empty index, every stored object's box lies inside at least depth-1 of the reported node boxes, every reported node box is tight (each side is reached by some stored object's box inside it), together they span all content, there are no node boxes exactly when the depth is one, and depth and the number of node boxes respect the configured maximum number of children per node.",
 ["histories","configurations"],"every history and every pair of minimum and maximum children with 1 <= min <= max/2",
 "Depth and the node boxes are not looked at by any test.",
 ["rtree.go"],[("Rtree.Depth","rtree.go"),("Rtree.GetAllBoundingBoxes","rtree.go"),("split/adjustTree/condenseTree/omt","rtree.go")],["Depth","GetAllBoundingBoxes","Size"])
p("R06","Building, growing, draining and refilling never lose content",
 "Whatever way an index is built (empty, from a list below or above the node capacity, any valid minimum and maximum, random-identifier constructors) and whatever is inserted after it, all given objects and only those are stored; an object given a random identifier shares it with no other stored object; the caller's list is not altered; an index can be drained to empty and refilled any number of times without a crash and behaves like a fresh one.",
 ["histories","configurations"],"every construction route, list size around capacity powers, and grow/drain cycle",
 "Tests build once with five objects and never insert after a bulk load or drain a tree.",
 ["rtree.go"],[("NewTree/NewTreeWith/NewMinMaxTree/NewRandomIDTree","rtree.go"),("bulkLoad/omt","rtree.go"),("Rtree.Insert/InsertWithRandomId","rtree.go")],["NewTree","NewMinMaxTree","NewRandomIDTree","Insert","InsertWithRandomId","Size","SearchIntersect"])
p("R07","Queries are read-only and safe to run concurrently",
 "Searches, identifier lookups, nearest-neighbour queries, size, depth and node-box queries never change what any later operation on the index observes, and any number of them may run concurrently on one index, each returning exactly what it returns alone, with no data race.",
 ["schedules","histories"],"every interleaving of concurrent read-only queries on an index reached by any history",
 "No test uses the index from more than one goroutine or repeats a query.",
 ["rtree.go"],[("searchIntersectWithCond/nearestNeighbors keep their scratch local","rtree.go")],["SearchIntersect","NearestNeighbors","SearchBySpatialID","GetAllBoundingBoxes"])
p("L01","Line editing behaves as an editable list of points",
 "For any sequence of appends, sets, inserts, deletes and reversals on a 2-D line, the line holds exactly the points of the corresponding list: insert at n shifts later points, set and insert at the end append exactly one point, delete removes exactly one, and reversing twice is the identity. A position outside the line (negative or past the end) is refused with an error, or a nil point when reading, leaves the line unchanged and never crashes; two lines are equal exactly when they have the same length and pairwise equal points, in either argument order.",
 ["histories","inputs"],"every edit history and every position, valid or not, on lines of any length and with spare capacity (the 3-D line offers append, reversal and equality only)",
 "No test edits a line after building it.",
 ["lineString.go","lineStringZ.go"],[("Append/SetPoint/InsertPoint/DelPoint/Reverse/GetPoint/Equal","lineString.go"),("LineStringZ methods","lineStringZ.go")],["GetPointSet","GetPointCount","GetPoint","GetFirstPoint","GetEndPoint","Equal"])
p("L02","Splitting, ring closing and polygon assembly never disturb other geometry",
 "Splitting a line at an index yields the points up to and including it and the points from it on; turning a line of at least two points into a ring yields the same points, closed by repeating the first exactly when first and last differ by more than the coordinate tolerance; polygons and collections hold the given parts in order, with the first ring as the shell. No such derivation, and no later append, set, insert, delete or reversal on a split half, a derived ring's source line or any other line, changes any other line or ring previously obtained (the line view of a ring, which is that ring itself, excepted).",
 ["histories","inputs"],"every history of derivations and edits over several live lines, halves, rings and polygons, with any backing capacity",
 "Tests build a ring from a fresh line and never look at the source line, or at split halves, again.",
 ["lineString.go","lineStringZ.go","linearRing.go","linearRingZ.go","polygon.go","polygonZ.go","multipoint.go","multilinestring.go","multipolygon.go"],[("SplitByIndex, ToRing","lineString.go"),("NewRingFromLine","linearRing.go"),("SetExteriorRing/AddInteriorRing","polygon.go")],["SplitByIndex","ToRing","NewLinearRing","NewPolygon","GetExteriorRing","GetInteriorRing"])
p("T01","Every geometry kind is built, named, edited and read faithfully",
 "For each of the twelve kinds of geometry, 2-D and 3-D, the constructor keeps exactly the parts it is given in order (the from-points polygon constructors close the ring) and does not follow later changes to the caller's list; the geometry names itself with its own type; a point's setters change just their coordinate; adding a part appends it and leaves the others; setting the shell of a polygon replaces the shell only, or makes it when there is none; and the accessors show exactly the parts there are: shell, shell points and holes of a polygon (empty when there are none), points and count of a line and its first and last point from two points on.",
 ["inputs","histories"],"every kind, with none, one or many parts and empty parts, and every sequence of additions and replacements",
 "Tests build a few 2-D geometries and read single parts of them.",
 ["type.go","polygon.go","polygonZ.go","pointZ.go","lineStringZ.go","multipoint.go","multipointZ.go","multipolygonZ.go"],[("Type","type.go"),("NewPolygonZ/SetExteriorRing/AddInteriorRing","polygonZ.go"),("NewMultiPointZ/Append","multipointZ.go"),("NewLineStringZ","lineStringZ.go")],["Type","the constructors of the twelve kinds","NewPolygonFromPois","NewPolygonZFromPois","SetX/SetY/SetZ","Append","AddInteriorRing","AddPolygon","AddPolygonZ","SetExteriorRing","GetExteriorRing","GetInteriorRing","GetExteriorPoints","GetPointSet"])
p("W01","WKT encoding followed by decoding returns the same geometry",
 "For every non-empty point, multipoint, line, multi-line, polygon and multi-polygon, in 2-D and 3-D, with finite coordinates, any number of parts and closed rings of at least two positions, the WKT text lists exactly the geometry's parts and coordinates in order under the right keyword, and decoding that text gives a geometry of the same kind with bit-identical coordinates in the same nesting.",
 ["inputs"],"every kind, dimension, number of parts/rings/points (up to large) and every finite double including negatives, tiny and huge magnitudes",
 "One decode is called with its result discarded, and encodings are printed; nothing is compared.",
 ["wkt/encode.go","wkt/decode.go"],[("Encode","wkt/encode.go"),("Decode and the per-kind parsers","wkt/decode.go")],["wkt.Encode","wkt.Decode"])
p("W02","WKT decoding of arbitrary text is total and never silently wrong",
 "Decoding any text returns a geometry or an error and never crashes. Well-formed WKT of the six supported keywords, in 2-D or 3-D, with optional blanks, tabs or line breaks around brackets and after commas, and with or without brackets around each multipoint position, decodes to exactly the coordinates and nesting written (unclosed polygon rings being closed); an unknown keyword before the bracket, an empty body, a position that is not two or three numbers, or mixed dimensions within one geometry give an error; and no other text decodes to a geometry with coordinates other than those it lists. (Text before the keyword or after the last bracket may be ignored, and lines or rings of a single position are left open.)",
 ["inputs"],"every token string near the grammar: deletions, duplications, insertions and replacements of tokens, and blank placement",
 "The tests decode three well-formed strings.",
 ["wkt/decode.go"],[("Decode","wkt/decode.go"),("PointFromWKT … MultiPolygonFromWKT","wkt/decode.go")],["wkt.Decode"])
p("J01","GeoJSON geometry encoding is faithful and decodes back",
 "Encoding any non-empty geometry of the twelve kinds gives a GeoJSON object of the matching type whose coordinates are exactly the geometry's coordinates in the same nesting and order, with two or three ordinates according to its dimension. Decoding the encoding of a non-empty point, line or polygon, 2-D or 3-D, returns the identical geometry; a kind that decoding does not support yields an error, never a different geometry.",
 ["inputs"],"every kind, dimension, nesting shape and finite coordinate",
 "Tests encode a 2-D point and decode one 2-D and one 3-D point.",
 ["geojson/geojson.go"],[("MarshalGeo and Convert*","geojson/geojson.go"),("UnmarshalGeo","geojson/geojson.go")],["geojson.MarshalGeo","geojson.UnmarshalGeo"])
p("J02","GeoJSON decoding rejects malformed geometry instead of crashing",
 "Decoding a geometry object whose coordinates are missing, null, of the wrong nesting, non-numeric, with fewer than two or more than three ordinates, or of mixed dimensions, or whose type is unknown, or an absent geometry (null), returns an error and no geometry; it never crashes and never returns a partly filled geometry. (Empty coordinate arrays are left open.)",
 ["inputs"],"every JSON value in place of the coordinates, a position or an ordinate, at every depth, for every type name",
 "No test gives malformed geometry.",
 ["geojson/geojson.go"],[("UnmarshalGeo, inter2*, isInter*","geojson/geojson.go")],["geojson.UnmarshalGeo","geojson.UnmarshalFeature"])
p("J03","Features and collections survive an encode/decode cycle",
 "For any history of creating features, setting properties, identifiers, bounding boxes and reference systems and adding features to a collection, encoding and then decoding gives a document with the same features in the same order, each with the same identifier, properties, bounding box, reference system and geometry (as GeoJSON, and as a geometry when decoded). Setting the bounding box of a feature with a 2-D geometry, created or decoded from a point, line or polygon, makes it the box of that geometry, visible in the feature and in its encoding.",
 ["histories","inputs"],"every history of feature and collection operations, interleaved with encodes and decodes",
 "Tests check single fields of hand-written documents; no history is encoded, decoded and compared, and setting the bounding box is untested.",
 ["geojson/feature.go","geojson/feature_collection.go"],[("NewFeature/SetBoundingBox/MarshalJSON/UnmarshalFeature","geojson/feature.go"),("AddFeature/MarshalJSON/UnmarshalFeatureCollection","geojson/feature_collection.go")],["Feature.MarshalJSON","UnmarshalFeature","FeatureCollection.MarshalJSON","UnmarshalFeatureCollection"])
p("J04","Typed property access returns the stored value or the default",
 "After any history of property sets, a typed accessor returns the last value set under that key if it has the requested type (integers also accept whole or fractional JSON numbers, truncated), otherwise an error; the variant with defaults returns that value, else the first default given, else the type's zero. Setting one key never changes another.",
 ["histories","inputs"],"every history of sets over several keys and value types, directly or through an encode/decode cycle, and every accessor and default list",
 "Tests look at one key per type on a fixed document.",
 ["geojson/properties.go"],[("SetProperty and Property*","geojson/properties.go")],["Property*","PropertyMust*"])
p("G01","Bounding boxes are tight and box operations are exact",
 "The bounding box of any non-empty 2-D geometry contains all its points and each side passes through one of them, for coordinates of any sign and magnitude; the union of boxes is the smallest box containing them; intersection is symmetric and true exactly when the closed boxes share a point; containment and point membership include the boundary; a box converts to the point, line or closed rectangle that has it as bounding box.",
 ["inputs"],"every geometry kind and shape and every pair of boxes including degenerate and far-away ones",
 "One box is computed and printed.",
 ["box.go"],[("BoundingBox/calBox","box.go"),("Union/Intersect/Contain/IsPointInBox/BoxToGeo","box.go")],["BoundingBox","Box.Union","BoxUnion","Box.Intersect","Box.Contain","IsPointInBox","BoxToGeo","NewRectBox","Box.Size"])
p("G02","Point-in-polygon classification is exact",
 "A point is reported as touching exactly when it lies on an edge or vertex of any of the polygon's rings; otherwise as contained exactly when it is inside the shell and outside every hole, else as disjoint. The answer does not depend on ring direction or starting vertex and is the same after shifting or power-of-two scaling everything, away from the 1e-6 tolerance.",
 ["inputs"],"every simple polygon, convex or not, with horizontal and vertical edges, collinear vertices and holes, and every query point including those level with vertices",
 "Three points against one triangle and prints for one concave shape, none asserting the boundary.",
 ["contain.go","relation.go"],[("IsPointInPolygon","contain.go"),("IsPointOnSegment","relation.go")],["IsPointInPolygon"])
p("G03","Segment and line relations are exact and symmetric",
 "Two segments are reported as intersecting exactly when they cross at a point interior to both, as disjoint exactly when they share no point, and as touching otherwise (shared ends, T-junctions, collinear overlap); lines are reported as intersecting exactly when they share a point. A point is on a segment, or on a line, exactly when it lies on it (ends included). Results do not depend on argument order or segment direction.",
 ["inputs"],"every pair of non-degenerate segments and lines, including collinear, parallel and T configurations",
 "No test calls the segment or line relations.",
 ["relation.go","vector.go"],[("SegmentRelation/LineRelation","relation.go"),("IsPointOnSegment/IsPointOnLine","relation.go")],["SegmentRelation","LineRelation","IsPointOnSegment","IsPointOnLine"])
p("G04","Polygon self-intersection and validity checks are exact",
 "A polygon is reported as self-intersecting exactly when two edges of its shell cross at a point interior to both, whatever vertex the ring starts at and whatever its direction. A polygon verifies as valid exactly when its closed shell has at least three vertices, all longitudes (x) lie in [-180,180] and latitudes (y) in [-90,90], its area is at least 1e-10 and it does not self-intersect.",
 ["inputs"],"every closed ring, crossing pair of edges (including the closing edge) and coordinate range",
 "No test calls either check.",
 ["polygon.go"],[("SelfIntersect","polygon.go"),("Verify","polygon.go")],["Polygon.SelfIntersect","Polygon.Verify"])
p("G05","Area, orientation, centroid and length are exact on any shape",
 "A polygon's area is the shell's shoelace area less its holes' areas, whatever the ring direction and starting vertex; a multi-polygon's is the sum of its parts; a box geometry's is width times height. Orientation is counter-clockwise exactly when the signed area is positive, the centroid is that of the polygon's region (holes excluded), for a line or ring that of the region it goes around when closed, for a multipoint the mean of its points and for a point itself, and a line's length is the sum of its segment lengths.",
 ["inputs"],"every closed shell of non-zero area with holes inside it, either direction, and every line",
 "Values are printed for one or two shapes and not asserted.",
 ["calcaulation.go","polygon.go","lineString.go"],[("GetArea/relativeArea/polyArea/MultiPolyArea","calcaulation.go"),("Centroid/polyCentroid","calcaulation.go"),("IsCCW","polygon.go"),("LineString.Length","lineString.go")],["GetArea","IsCCW","Centroid","Length"])
p("G06","The convex hull is convex, contains every point and uses only them",
 "For any at least three points not all on one line, in any order and with any duplicates, the convex hull is a closed (up to the coordinate tolerance) counter-clockwise ring that is convex, whose vertices are all input points, and that contains every input point.",
 ["inputs"],"every multiset of at least three non-collinear points, of any size (dozens to hundreds) and order, with ties and collinear runs",
 "One five-point hull is printed; sorting more than a dozen points takes a different path that no test reaches.",
 ["convexhull.go"],[("ConvexHull","convexhull.go"),("hullPts ordering","convexhull.go")],["ConvexHull"])
p("G07","Planar distances and nearest points are exact",
 "The planar distance from a point to a segment, with its closest point, to a polygon (zero inside or on the boundary; inside a hole the distance to the hole's edge) and to a line (closest point, index of a closest segment, distance) is the true minimum over all their points, also for zero-length segments; the infinite-line variant gives the foot of the perpendicular and its parameter. The distance between two lines' vertex sets is the symmetric discrete Hausdorff distance, and point distances, 2-D and 3-D, are Euclidean.",
 ["inputs"],"every planar configuration: projection before, inside, after and at the ends of segments, repeated vertices, polygons of every shape",
 "One distance per function is printed.",
 ["calcaulation.go","point.go","pointZ.go"],[("PointToSegmentDistance/PointToLineDistance","calcaulation.go"),("PointPolygonDistance/PointHitLineString/HausdorffDistance","calcaulation.go"),("EuclideanDisZ","pointZ.go")],["PointToSegmentDistance","PointToLineDistance","PointPolygonDistance","PointHitLineString","HausdorffDistance","EuclideanDis","EuclideanDisZ"])
p("G08","Line simplification keeps the shape within the threshold",
 "Simplifying a line with a non-negative planar threshold returns a subsequence of its points that keeps both ends; every dropped point lies within the threshold of the segment between its kept neighbours; and between two kept ends an intermediate point is kept exactly when the farthest point from their segment is farther than the threshold (Douglas-Peucker). This holds for closed and self-crossing lines and repeated points.",
 ["inputs"],"every line (open, closed, with repeated or collinear points) and threshold",
 "One straight line is simplified and printed.",
 ["simplify.go","calcaulation.go"],[("DouglasPeuckerSimplify/dpWorker","simplify.go")],["DouglasPeuckerSimplify"])
p("G09","Calculations never modify the geometry they are given",
 "No calculation, predicate, conversion or encoding (hull, minimum rectangle, simplification, box, area, centroid, distance, relation, rotation, cell covering, WKT and GeoJSON encoding) changes any coordinate of its arguments or of any other live geometry, including geometry sharing storage with an argument; so calling it again with the same arguments gives the same result.",
 ["inputs","histories"],"every sequence of calculations over live geometries, including slices of a larger array and either ring direction",
 "No test looks at an argument after a call.",
 ["convexhull.go","mbr.go","simplify.go","googleS2.go","linearRing.go"],[("ConvexHull sorts a private copy","convexhull.go"),("DouglasPeuckerSimplify","simplify.go"),("S2RegionCoverer","googleS2.go")],["ConvexHull","Mbr","DouglasPeuckerSimplify","S2RegionCoverer","and all other calculations"])
p("G10","The minimum rectangle contains the geometry and has least area",
 "For any 2-D geometry whose points are not all on one line, the minimum rotated rectangle is a closed four-cornered rectangle containing all its points, and its area is the least among rectangles with a side along a hull edge, up to the rotation rounding of 1e-4 per coordinate.",
 ["inputs"],"every geometry kind and non-collinear point arrangement, including interior points and any point order",
 "Two rectangles are printed.",
 ["mbr.go","convexhull.go","calcaulation.go"],[("Mbr","mbr.go"),("RotateCW/RotateCCW","calcaulation.go")],["Mbr"])
p("G11","Segment, line and outline relations to a polygon are sound",
 "The relation of a segment, line or another polygon's outline to a polygon is disjoint exactly when they share no point, contain exactly when it lies strictly inside the polygon, and intersect exactly when one of its segments properly crosses an edge of the polygon. When a segment meets the boundary without such a crossing the relation is cover if both its ends are in or on the polygon, touch if both are outside, and unknown otherwise; a line or outline then gives one of these three.",
 ["inputs"],"every non-degenerate segment, line and closed outline against every simple polygon, convex or not, with or without holes, including contact only at the closing edge",
 "No test calls these relations.",
 ["relation.go"],[("SegPolyRelation/LinePolyRelation/LinearPolyRelation/PolyRelation","relation.go")],["SegPolyRelation","LinePolyRelation","LinearPolyRelation","PolyRelation"])
p("V01","Rotation, angles, vectors and point buffers are exact",
 "Rotating a point or polygon, holes included, clockwise about a centre keeps its distances to the centre up to the 1e-4 rounding, is exact for quarter turns and is undone by the counter-clockwise rotation; the angle at a vertex is in [0,2pi) up to rounding and measures the counter-clockwise turn, with coincident points reported as an error (the quadrant angle of two points likewise measures the turn from the x axis to their direction); convexity is 1, 0 or 2 as that turn is under, over or exactly a half turn or none; vector sums, products and lengths are exact and a unit vector has length 1 along its vector. A point buffer of radius r >= 0 is a closed ring of at least 24 points all at distance r around the centre at equal steps, and none for negative r.",
 ["inputs"],"every centre, point, polygon, quarter turn and general angle, and every direction pair",
 "One rotation by 45 degrees is printed.",
 ["calcaulation.go","vector.go","buffer.go"],[("RotateCW/RotateCCW/CacAngle/CacConvex","calcaulation.go"),("Vector2","vector.go"),("pointBuffer","buffer.go")],["RotateCW","RotateCCW","CacAngle","CacConvex","Vector2 methods","Point.Buffer"])
p("U01","UTM zones, bands and conversion round trips are right everywhere",
 "For every latitude in [-80,84] and longitude in [-180,180] the UTM zone is the standard one in 1..60, including the Norway and Svalbard exceptions with half-open limits and longitude 180 counted as -180, the band letter is the standard one, and converting back (by the band letter in either case, or by the hemisphere) gives the position to within 1e-5 degree. Eastings and northings are those of the transverse Mercator projection (WGS84, scale 0.9996): the central meridian has easting 500000, eastings grow eastwards and northings northwards, and southern northings are offset by 10,000,000; with the hemisphere option the letter is N from the equator northwards and S south of it, and out-of-range input is refused with an error.",
 ["inputs"],"every position including zone and band limits, poles' limits, the antimeridian and both ways of naming the hemisphere",
 "One position is converted and printed.",
 ["utm.go"],[("FromLatLon/ToLatLon","utm.go"),("latLonToZoneNumber/latitudeToZoneLetter/ValidateLatLone","utm.go")],["FromLatLon","ToLatLon","ValidateLatLone"])
p("U02","China-offset conversions invert each other and leave the rest alone",
 "Outside the longitude/latitude window of China (73.66 to 135.05, 3.86 to 53.55, limits excluded from it) WGS84-GCJ02 conversions return the position unchanged; inside, the offset is the published one, non-zero and below 0.02 degree, and converting there and back returns the position to within 1e-4 degree when the converted position lies inside as well. GCJ02-BD09 there and back is within 1e-5 degree, and the WGS84-BD09 conversions equal the two-step conversion through GCJ02.",
 ["inputs"],"every position, dense around the window limits, and every chain of conversions",
 "No test calls these conversions.",
 ["lonlat.go"],[("WGS84toGCJ02/GCJ02toWGS84/GCJ02toBD09/BD09toGCJ02/WGS84toBD09/BD09toWGS84","lonlat.go"),("isOutOFChina","lonlat.go")],["the six conversions"])
p("H01","Geohash cells follow the standard grid",
 "Encoding a position at precision p in 1..12 gives the standard geohash of p characters (longitude bits first), so a longer hash extends the shorter one; the hash's boundary is exactly its grid cell with x as longitude and y as latitude, contains the position, and its centre is the cell's middle and encodes back to the same hash. The eight neighbours come in the order N, NE, E, SE, S, SW, W, NW, wrapping at the antimeridian, away from the poles.",
 ["inputs"],"every grid position at every precision, including the antimeridian, equator and prime meridian",
 "Tests print one hash, centre, boundary and neighbour list.",
 ["geohash.go"],[("GeohashEncode/GeohashGetCenter/GeohashGetBoundary/GeohashGetAllNeighbors","geohash.go")],["the four geohash functions"])
p("S01","S2 cells nest, contain their points and cover polygons",
 "The S2 cell of a longitude/latitude position at a level is of that level and nests in the position's cells at lower levels; its centre lies back in the cell; its boundary has four distinct corners around the centre; its neighbours are distinct other cells of the same level with symmetric adjacency. A region covering has distinct cells of the asked level that include the cell of every vertex and interior position of the polygon, whatever the ring direction and on every call. For a non-GPS reference system the cell, centre, boundary and neighbours are empty.",
 ["inputs","histories"],"every position, level, cell and simple polygon of either direction, repeated calls included",
 "Tests print one cell, centre, boundary, neighbour list and covering.",
 ["googleS2.go"],[("S2GetCellID/S2GetCenter/S2GetBoundary/S2GetAllNeighbors","googleS2.go"),("S2RegionCoverer/toLoop","googleS2.go")],["the five S2 functions"])
p("D01","Great-circle distance, azimuth and destination agree",
 "Great-circle distance is symmetric, zero for equal positions, never NaN, proportional to the angle along meridians and the equator with the mean Earth radius of 6371000 m, and both distance formulas agree; the point reached by travelling a distance on a bearing is at that distance and on that initial azimuth, with longitude in [-180,180]. Azimuths are in [0,360), 0 due north, 90 due east along the equator, 180 due south and 270 due west, and 0 for non-GPS reference systems; planar distance is used for every reference system other than GPS.",
 ["inputs"],"every pair of positions including equal, antipodal, across the antimeridian, and every bearing and distance",
 "One azimuth and one planar distance are printed.",
 ["point.go","angle.go","calcaulation.go"],[("CoordDistance/CoordGreateCircle/DestinationPoint","point.go"),("GetAzimuth","angle.go"),("PointDistance","calcaulation.go")],["CoordDistance","CoordGreateCircle","DestinationPoint","GetAzimuth","PointDistance"])
p("D02","Distances to shapes in GPS coordinates are great-circle distances",
 "With the GPS reference system every distance to a shape is in metres on the sphere: the distance from a position to a segment is the great-circle distance to the point the function names, which is the segment's nearest in the plane of longitude and latitude; the distance to a line is the least over its segments and comes with that segment's index and point; the distance to a polygon is zero in or on it and otherwise the least over all its edges, holes' included; the distance between two lines' vertex sets is the symmetric discrete Hausdorff distance; and simplification with a threshold in metres keeps a point between two kept ends exactly when the farthest point from their segment is farther than the threshold.",
 ["inputs"],"every position, segment, line, polygon with holes and threshold, at any latitude, across the equator and near the antimeridian",
 "Tests print one planar distance.",
 ["calcaulation.go","simplify.go","point.go"],[("PointToSegmentDistance/PointPolygonDistance/PointHitLineString/HausdorffDistance","calcaulation.go"),("dpWorker","simplify.go")],["PointToSegmentDistance","PointToLineDistance","PointPolygonDistance","PointHitLineString","HausdorffDistance","DouglasPeuckerSimplify"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P), max(len(x["title"]) for x in P))
