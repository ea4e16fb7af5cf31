"""What each check's verdict is worth (MANIFEST level_note)."""
COMMON = ("Exhaustive where a model is checked (within its bounds); for the code, every recorded call or history is judged "
          "in full, so the assurance on the code is that of the inputs explored. Trusted: TLC, the Go driver's recording.")
EXACT = "Inputs lie on integer grids on which the specification's integer arithmetic is exact, at several power-of-two scales and far offsets."
BAG = ("Design model of the tree (split, bulk load, condense, reinsertion, search, pruning) checked against the bag specification for all "
       "histories of few objects, with seeded design defects that must be rejected; recorded and TLC-generated histories of the real index judged against the bag.")
NOTES = {
 "G01": "Tightness and box algebra as integer statements. " + EXACT,
 "G02": "Point classification by exact integer crossing, judged on convex and concave rings with holes. " + EXACT,
 "G03": "Exact orientation predicates; every configuration of small segments. " + EXACT,
 "G04": "Exact crossing of all edge pairs, all ring starts and directions. " + EXACT,
 "G05": "Area, centroid and length as exact rationals; results are rationalised to 1e-9. " + EXACT,
 "G06": "Convexity, containment and vertex origin are checked, not one particular hull. " + EXACT,
 "G07": "Minima as exact rationals of squared distances, over all segments. " + EXACT,
 "G08": "Douglas-Peucker keep rule on exact squared distances; ties may fall either way only where rounding decides. " + EXACT,
 "G09": "A workspace of live geometries, slices of larger arrays included; every step lists all of them, so any disturbed bystander is seen; repeated calls must repeat.",
 "G10": "Containment and least area to the rotation rounding. " + EXACT,
 "G11": "Exact shared-point, strict-inside and proper-crossing predicates. " + EXACT,
 "V01": "Turn and rotation statements in integers, quarter turns exactly. " + EXACT,
 "R01": BAG, "R02": BAG, "R03": BAG, "R04": BAG, "R05": BAG, "R06": BAG,
 "R07": "Model of interleaved readers checked for all interleavings (with shared-scratch and caching defects that must be rejected); concurrent queries recorded and judged, the race detector's report counting as an event.",
 "L01": "Memory design model (arrays, capacity, aliasing) refines the value semantics for all short histories; recorded and generated histories judged.",
 "L02": "Memory design model (arrays, capacity, aliasing) refines the value semantics for all short histories; recorded and generated histories list all live geometry after each step.",
 "T01": "All short histories of every kind exhaustively (values stay in their kind's shape), and long random ones, over several coordinate tables.",
 "W01": "Grammar on tokens; the law that reading what was written gives the geometry back is checked exhaustively on small geometries; bit-exact comparison of random doubles.",
 "W02": "Every single-token edit of the small texts of every kind (two edits in the thorough tier), and random texts with up to three edits.",
 "J01": "Token-exact coordinates; bit-exact comparison of random doubles of all twelve kinds.",
 "J02": "Every single-node edit of small coordinate values of every type name (two edits in the thorough tier), and random edits.",
 "J03": "Store of features and collections with references; laws checked exhaustively on small stores, recorded and generated histories list the whole store after each step.",
 "J04": "Typed values as tagged tuples; every accessor, default list and encode/decode cycle in recorded and generated histories.",
 "U01": "Zone, band and hemisphere exactly on a fine grid with all limits; round trips and orientation quantised to the stated tolerance.",
 "U02": "Window exactly at and around its limits; round trips quantised to the stated tolerance.",
 "H01": "Cells as 30-bit integers, bit interleaving and base-32 digits exactly, at every precision.",
 "S01": "Cell identifiers as face and digit paths; nesting, neighbours and covering as path statements.",
 "D01": "Exact arcs on meridians and the equator in scaled integers; consistency of distance, azimuth and destination elsewhere.",
 "D02": "Feet as exact rationals, minima, maxima and the keep rule over recorded great-circle tables, arcs between coarse grid positions by the sphere itself; all small figures and random ones.",
}
