"""What decides each property: the stages check.py runs, and the manifest texts."""
def trace(suite, spec, quick, thorough, reps=1, **kw):
    return dict(kind="trace", suite=suite, trace=spec, n=dict(quick=quick, thorough=thorough), reps=dict(quick=1, thorough=reps), **kw)
def model(module, quick, thorough=None, **kw):
    f = lambda l: [(x, "ok") if isinstance(x, str) else x for x in l]
    return dict(kind="model", module=module, cfgs=dict(quick=f(quick), thorough=f(thorough if thorough is not None else quick)), **kw)
PLAN = {}

def prop(pid, technique, *stages, **kw):
    PLAN[pid] = dict(stages=list(stages), technique=technique, **kw)
PLANE = "TLA+ exact integer geometry (Geom; PlaneGen checks it against independent formulations on all small figures); TLC judges recorded calls, on all small figures and random ones"
def plane(pid, q, *models):
    gen = [] if pid == "V01" else [trace("planegen", "PlaneTrace", 0, 0, gen=dict(module="PlaneGen", bfs=dict(quick=["PlaneGen_%s.cfg" % pid], thorough=["PlaneGen_%st.cfg" % pid])))]
    prop(pid, PLANE, *models, *gen, trace("plane", "PlaneTrace", q, 40000, reps=12))
GRAHAM = [("Graham_dups.cfg", "Hull"), ("Graham_origin.cfg", "Two"), ("Graham_noturn.cfg", "Hull")]
PEUCKER = [("Peucker_line.cfg", "Faithful"), ("Peucker_once.cfg", "Faithful"), ("Peucker_ends.cfg", "Faithful")]
plane("G01", 12000)
plane("G02", 7000)
plane("G03", 9000)
plane("G04", 12000)
plane("G05", 12000)
plane("G06", 10000, model("Graham", ["Graham_none.cfg"] + GRAHAM[:2], ["Graham_none5.cfg"] + GRAHAM))
plane("G07", 12000)
plane("G08", 12000, model("Peucker", ["Peucker_none.cfg"] + PEUCKER[:1], ["Peucker_none5.cfg"] + PEUCKER))
plane("G10", 9000)
plane("G11", 11000)
plane("V01", 12000)
GEN_INDEX = dict(module="IndexGen", cfg="IndexGen.cfg", num=dict(quick=250, thorough=3000), depth=70)
INDEX = "TLA+ bag specification of the index (SpatialIndex, IndexTrace) and design model (RTree); TLC judges recorded and generated histories"
def index(pid, q, *models):
    prop(pid, INDEX, *models, trace("rtree", "IndexTrace", q, 60000, reps=10, lanes=False),
         trace("rtreegen", "IndexTrace", 10**9, 10**9, lanes=False, gen=GEN_INDEX))
DEF = {"stalebox": "Balanced", "looseshrink": "Balanced", "earlyprune": "Nearest", "lowfirst": "NoCrash", "wronglevel": "NoCrash"}
def rt(quick, thorough):
    f = lambda l: [("RTreeMC_%s.cfg" % x, DEF.get(x, "ok")) for x in l]
    return model("RTreeMC", f(quick), f(quick + thorough))
index("R01", 30000, rt(["12", "23", "stalebox"], ["13", "24q", "24", "looseshrink"]))
index("R02", 30000, rt(["12", "23", "lowfirst"], ["13", "24q", "24", "wronglevel"]))
index("R03", 30000, rt(["12", "23"], ["13", "24q", "24", "stalebox"]))
index("R04", 30000, rt(["12", "13", "earlyprune"], ["24q"]))
index("R05", 30000, rt(["12", "23", "looseshrink"], ["13", "24q", "24", "stalebox"]))
index("R06", 30000, rt(["12", "23", "lowfirst"], ["13", "24q", "24", "wronglevel"]))
prop("R07", "TLA+ model of interleaved readers (Readers) and recorded concurrent queries judged by IndexTrace; race detector as a recorder",
     model("ReadersMC", ["ReadersMC_none.cfg", ("ReadersMC_shared.cfg", "AsAlone"), ("ReadersMC_cache.cfg", "Unchanged")]),
     trace("readers", "IndexTrace", 6000, 20000, reps=8, lanes=False),
     trace("readers", "IndexTrace", 1500, 8000, reps=4, lanes=False, race=True))
GEN_LINE = dict(module="LineGen", cfg="LineGen.cfg", num=dict(quick=300, thorough=4000), depth=30)
LINE = "TLA+ value semantics of lines (LineEdit, LineTrace) refined by a shared-memory design model (LineMem); TLC judges recorded and generated histories"
for pid in ("L01", "L02"):
    prop(pid, LINE, model("LineMem", ["LineMem_q.cfg", ("LineMem_split.cfg", "Refines"), ("LineMem_ring.cfg", "Refines")], ["LineMem_t.cfg", "LineMem_t5.cfg", ("LineMem_split.cfg", "Refines"), ("LineMem_ring.cfg", "Refines")]),
         trace("line", "LineTrace", 25000, 60000, reps=10, lanes=False),
         trace("linegen", "LineTrace", 0, 0, lanes=False, gen=GEN_LINE))
GEN_KINDS = dict(module="KindsGen", bfs=dict(quick=["KindsGen.cfg"], thorough=["KindsGen.cfg", "KindsGen4.cfg"]))
prop("T01", "TLA+ value machine of the geometry kinds (Kinds, KindsGen: all short histories of every kind); TLC judges generated and random histories",
     trace("kindsgen", "KindsTrace", 0, 0, lanes=False, gen=GEN_KINDS), trace("kinds", "KindsTrace", 30000, 60000, reps=10, lanes=False))
GEN_WKT = dict(module="WktGen", bfs=dict(quick=["WktGen.cfg"], thorough=["WktGen.cfg", "WktGen2.cfg"]))
WKT = "TLA+ grammar and meaning of WKT on tokens (Wkt, WktGen explored exhaustively); TLC judges recorded encodings and decodings"
prop("W01", WKT, model("WktGen", ["WktLaws.cfg"]), trace("wkt", "WktTrace", 12000, 40000, reps=12))
prop("W02", WKT, trace("wkt", "WktTrace", 30000, 50000, reps=10), trace("wktgen", "WktTrace", 0, 0, gen=GEN_WKT))
GEN_GJ = dict(module="GeoJsonGen", bfs=dict(quick=["GeoJsonGen.cfg"], thorough=["GeoJsonGen.cfg", "GeoJsonGen2.cfg"]))
GJ = "TLA+ meaning of GeoJSON coordinates on tokens (GeoJson, GeoJsonGen explored exhaustively); TLC judges recorded encodings and decodings"
prop("J01", GJ, model("GeoJsonGen", ["GeoJsonLaws.cfg"]), trace("geojson", "GeoJsonTrace", 12000, 40000, reps=12))
prop("J02", GJ, trace("geojson", "GeoJsonTrace", 30000, 60000, reps=12), trace("geojsongen", "GeoJsonTrace", 0, 0, gen=GEN_GJ))
STORE = "TLA+ model of features, collections and typed values (FeatureStore, laws checked exhaustively); TLC judges recorded and generated histories"
GEN_STORE = dict(module="StoreGen", cfg="StoreGen.cfg", num=dict(quick=300, thorough=4000), depth=40)
for pid in ("J03", "J04"):
    prop(pid, STORE, model("StoreGen", ["StoreLaws.cfg"], ["StoreLaws7.cfg"]), trace("store", "StoreTrace", 20000, 60000, reps=10, lanes=False),
         trace("storegen", "StoreTrace", 0, 0, lanes=False, gen=GEN_STORE),
         *([trace("geojson", "GeoJsonTrace", 5000, 30000, reps=4)] if pid == "J03" else []))
prop("H01", "TLA+ geohash grid (Geohash: two definitions agree on every coarse cell); TLC judges recorded encodings, cells and neighbours",
     model("GeohashLaws", ["GeohashLaws.cfg"], ["GeohashLaws3.cfg"]), trace("geohash", "GeohashTrace", 16000, 40000, reps=12))
GEN_GPS = dict(module="PlaneGen", bfs=dict(quick=["PlaneGen_G07.cfg", "PlaneGen_G08.cfg"], thorough=["PlaneGen_G07.cfg", "PlaneGen_G08t.cfg"]))
prop("D02", "TLA+ distances to shapes over any metric (Shapes, exact feet from Geom, arcs from Sphere); TLC judges recorded distances on all small figures and random ones",
     trace("gpsgen", "ShapesTrace", 0, 0, gen=GEN_GPS), trace("gps", "ShapesTrace", 14000, 40000, reps=12))
GEN_UTM = dict(module="UtmGen", bfs=dict(quick=["UtmGen.cfg"], thorough=["UtmGen.cfg"]))
prop("U01", "TLA+ UTM grid (Utm: two definitions agree on every limit) and projection table; TLC judges recorded conversions",
     trace("utmgen", "UtmTrace", 0, 0, gen=GEN_UTM), trace("utm", "UtmTrace", 25000, 60000, reps=12))
GEN_OFF = dict(module="OffsetGen", bfs=dict(quick=["OffsetGen.cfg"], thorough=["OffsetGen.cfg"]))
prop("U02", "TLA+ window and offset table (Offset, OffsetGen explored exhaustively); TLC judges recorded conversions",
     trace("offsetgen", "OffsetTrace", 0, 0, gen=GEN_OFF), trace("offset", "OffsetTrace", 30000, 60000, reps=12))
prop("D01", "TLA+ sphere on integers (Sphere: exact arcs, sine table verified by identities); TLC judges recorded distances, azimuths and destinations",
     model("SphereLaws", ["SphereLaws.cfg"], ["SphereLaws1.cfg"]), trace("sphere", "SphereTrace", 30000, 60000, reps=12))
prop("S01", "TLA+ S2 grid (S2Grid: Hilbert curve, cube folding, laws on every coarse cell); TLC judges recorded cells, boundaries, neighbours and coverings",
     model("S2Laws", ["S2Laws.cfg"], ["S2Laws6.cfg"]), trace("s2", "S2Trace", 12000, 30000, reps=10))
prop("G09", "TLA+ model of calculations on shared storage (FrameMem) and recorded memory after every call judged by FrameTrace; race detector as a recorder",
     model("FrameMem", ["FrameMem_none.cfg", ("FrameMem_inplace.cfg", "Frame"), ("FrameMem_append.cfg", "Frame"), ("FrameMem_borrow.cfg", "SameResult"), "FrameMem_borrow1.cfg"], ["FrameMem_none.cfg", "FrameMem_3.cfg", ("FrameMem_inplace.cfg", "Frame"), ("FrameMem_append.cfg", "Frame"), ("FrameMem_borrow.cfg", "SameResult"), "FrameMem_borrow1.cfg"]),
     trace("frame", "FrameTrace", 24000, 60000, reps=10, lanes=False),
     trace("frame", "FrameTrace", 3000, 12000, reps=4, lanes=False, race=True))
