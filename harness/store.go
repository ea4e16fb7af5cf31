package main

import (
	"bufio"
	"encoding/json"
	"math"
	"os"

	geo "github.com/hzw456/go-geo"
	"github.com/hzw456/go-geo/geojson"
)

// the keys of a history: plain ones, the names of a feature's own members, paths into
// nested values, nearly the same ones
var storeBoxes = [][]int{{}, {1, 2, 3, 4}, {-3, 0, 5, 0, 1, 2}, {0, 0, 0, 0}, {0, 0, 0, 0, 0, 0}, {2, 2, 2, 2}, {4, 3, 2, 1}, {-180, -90, 180, 90}}

var storeKeySets = [][]string{{"name", "b c", "", "ключ\"<&>"}, {"id", "type", "geometry", "properties"}, {"bbox", "crs", "coordinates", "ID"},
	{"a", "a.b", "a.0", "a.a"}, {"name", "Name", "name ", "NAME"}, {"0", "00", "-", "_"}, {"Id", "id", "a/b", "a"}}
var storeKeys = storeKeySets[0]
var storeStrings = []string{"", "abc", "1", "true", "<&>\u2028 日本", "null", "7", "-3.5", "a.b", "\t\n\"\\", "0", "false", "NaN"} // index 0 is the zero value
var storeOthers = []interface{}{nil,                                                                                             // index 0 unused
	map[string]interface{}{}, map[string]interface{}{"a": 1.5, "b": []interface{}{"x", nil}}, []interface{}{1.0, 2.0}, []interface{}{},
	map[string]interface{}{"a": "abc", "b": true, "0": 7.0, "": 1.0}, []interface{}{"abc"}, []interface{}{7.0}, map[string]interface{}{"b": map[string]interface{}{"b": "x"}, "a": 2.0, "id": "x", "type": "Feature"}}
var storeCrs = []map[string]interface{}{nil,
	{"type": "name", "properties": map[string]interface{}{"name": "urn:ogc:def:crs:OGC:1.3:CRS84"}}, {"x": 1.0}}
var storeVals = []interface{}{nil, nil, true, false, 7, -3, 0, 3<<24 + 1, 2.75, -2.5, -0.5, 0.0, 5.0, float64(1024<<24 + 3), "abc", "", storeOthers[2], storeOthers[3]}

func js(v interface{}) string { b, _ := json.Marshal(v); return string(b) }

func copyMap(m map[string]interface{}) map[string]interface{} {
	if m == nil {
		return nil
	}
	r := map[string]interface{}{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

// val5 is a property value or identifier as the specification writes it.
func val5(v interface{}) []int {
	size := func(tag int, x float64) []int {
		s, a := 1, math.Abs(x)
		if x < 0 {
			s = -1
		}
		if x == 0 {
			s = 0
		}
		q := math.Floor(a)
		f := (a - q) * 4
		if math.IsNaN(x) || a >= 1<<53 || f != math.Floor(f) || (tag == 3 && f != 0) {
			return []int{tag, 9, 0, 0, 0}
		}
		hi := math.Floor(q / (1 << 24))
		return []int{tag, s, int(hi), int(q - hi*(1<<24)), int(f)}
	}
	switch x := v.(type) {
	case nil:
		return []int{1, 0, 0, 0, 0}
	case bool:
		return []int{2, b2i(x), 0, 0, 0}
	case int:
		if x > 1<<52 || x < -1<<52 {
			return []int{3, 9, 0, 0, 0}
		}
		return size(3, float64(x))
	case float64:
		return size(4, x)
	case string:
		for i := range storeStrings {
			if storeStrings[i] == x {
				return []int{5, i, 0, 0, 0}
			}
		}
		return []int{5, -1, 0, 0, 0}
	}
	t := js(v)
	for i := 1; i < len(storeOthers); i++ {
		if js(storeOthers[i]) == t {
			return []int{6, i, 0, 0, 0}
		}
	}
	return []int{6, -1, 0, 0, 0}
}

func crsIdx(m map[string]interface{}) int {
	if len(m) == 0 {
		return 0
	}
	t := js(m)
	for i := 1; i < len(storeCrs); i++ {
		if js(storeCrs[i]) == t {
			return i
		}
	}
	return -1
}

func ints(f []float64) []int {
	r := []int{}
	for _, x := range f {
		r = append(r, lat(x))
	}
	return r
}

// gridToks lexes coordinates: 1 [ 2 ] 1000+c.
func gridToks(raw []byte) []int {
	t := &nums{idx: map[uint64]int{}}
	r := lexJSON(t, raw)
	for i, x := range r {
		if x > 100 {
			c := lat(math.Float64frombits(t.bits[x-101]))
			if c < -400 || c > 400 {
				c = 450
			}
			r[i] = 1000 + c
		}
	}
	return r
}

type store struct {
	d     *driver
	evs   []E
	feats []*geojson.Feature
	colls []*geojson.FeatureCollection
	dims  []int
}

func props(m map[string]interface{}) [][]int {
	r := [][]int{}
	n := 0
	for _, k := range storeKeys {
		v, ok := m[k]
		if ok {
			n++
			r = append(r, val5(v))
		} else {
			r = append(r, []int{0, 0, 0, 0, 0})
		}
	}
	if n != len(m) {
		r = append(r, []int{-1, len(m), 0, 0, 0}) // a key nobody set
	}
	return r
}

func (s *store) featVal(f *geojson.Feature) E {
	if f == nil {
		return E{"id": []int{0, 0, 0, 0, 0}, "props": [][]int{}, "bbox": []int{}, "crs": -1, "kind": 0, "toks": []int{}}
	}
	kind, toks := 0, []int{}
	if f.GeometryJson != nil {
		kind = typeOf(f.GeometryJson.Type)
		toks = gridToks([]byte(js(f.GeometryJson.Coordinates)))
	}
	return E{"id": val5(f.ID), "props": props(f.Properties), "bbox": ints(f.BoundingBox), "crs": crsIdx(f.CRS), "kind": kind, "toks": toks}
}

func (s *store) obs() E {
	fs, cs := []E{}, []E{}
	for _, f := range s.feats {
		fs = append(fs, s.featVal(f))
	}
	for _, c := range s.colls {
		refs := []int{}
		for _, f := range c.Features {
			r := 0
			for i, g := range s.feats {
				if g == f {
					r = i + 1
				}
			}
			refs = append(refs, r)
		}
		cs = append(cs, E{"feats": refs, "bbox": ints(c.BoundingBox), "crs": crsIdx(c.CRS)})
	}
	return E{"feats": fs, "colls": cs}
}

// doc reads an encoded feature with encoding/json alone.
func doc(raw []byte) E {
	var m map[string]json.RawMessage
	json.Unmarshal(raw, &m)
	var ty string
	json.Unmarshal(m["type"], &ty)
	t := b2i(ty == "Feature")
	var id interface{}
	json.Unmarshal(m["id"], &id)
	if _, ok := m["geometry"]; !ok {
		t = 0
	}
	var pr, crs map[string]interface{}
	json.Unmarshal(m["properties"], &pr)
	json.Unmarshal(m["crs"], &crs)
	var bb []float64
	json.Unmarshal(m["bbox"], &bb)
	var g map[string]json.RawMessage
	json.Unmarshal(m["geometry"], &g)
	var gt string
	json.Unmarshal(g["type"], &gt)
	return E{"type": t, "f": E{"id": val5(id), "props": props(pr), "bbox": ints(bb), "crs": crsIdx(crs), "kind": typeOf(gt), "toks": gridToks(g["coordinates"])}}
}

func docColl(raw []byte) E {
	var m map[string]json.RawMessage
	json.Unmarshal(raw, &m)
	var ty string
	json.Unmarshal(m["type"], &ty)
	var crs map[string]interface{}
	json.Unmarshal(m["crs"], &crs)
	var bb []float64
	json.Unmarshal(m["bbox"], &bb)
	var fs []json.RawMessage
	t := b2i(ty == "FeatureCollection")
	if json.Unmarshal(m["features"], &fs) != nil || fs == nil {
		t = 0
	}
	ds := []E{}
	for _, f := range fs {
		ds = append(ds, doc(f))
	}
	return E{"type": t, "feats": ds, "bbox": ints(bb), "crs": crsIdx(crs)}
}

func (s *store) step(ev E, f func()) {
	s.d.flight(ev, len(s.evs) == 0)
	ev["pn"] = s.d.call(f)
	ev["obs"] = s.obs()
	s.evs = append(s.evs, ev)
}

func (s *store) newFeature(g geo.Geometry, kind, dim int, toks []int, bare bool) {
	s.step(E{"op": "new", "kind": kind, "toks": toks}, func() {
		f := geojson.NewFeature(g)
		if bare { // as a caller writes it, without a property map
			f = &geojson.Feature{Type: "Feature", Geometry: g, GeometryJson: f.GeometryJson}
		}
		s.feats = append(s.feats, f)
		s.dims = append(s.dims, dim)
	})
}

// twin is a second feature with the fields of the first, its own property map, the same geometry.
func (s *store) twin(f int) {
	s.step(E{"op": "twin", "f": f}, func() {
		y := *s.feats[f-1]
		y.Properties = copyMap(y.Properties)
		s.feats = append(s.feats, &y)
		s.dims = append(s.dims, s.dims[f-1])
	})
}
func (s *store) setProp(f, k int, v interface{}) {
	s.step(E{"op": "prop", "f": f, "k": k, "v": val5(v)}, func() { s.feats[f-1].SetProperty(storeKeys[k-1], v) })
}
func (s *store) setID(f int, v interface{}) {
	s.step(E{"op": "id", "f": f, "v": val5(v)}, func() { s.feats[f-1].ID = v })
}
func (s *store) setCrs(f, c int) {
	s.step(E{"op": "crs", "f": f, "c": c}, func() { s.feats[f-1].CRS = copyMap(storeCrs[c]) })
}
func (s *store) box(f int) {
	if s.dims[f-1] == 2 {
		s.step(E{"op": "box", "f": f}, func() { s.feats[f-1].SetBoundingBox() })
	}
}
func fl(b []int) []float64 {
	if len(b) == 0 {
		return nil
	}
	r := []float64{}
	for _, x := range b {
		r = append(r, float64(x))
	}
	return r
}
func (s *store) rawBox(f int, b []int) {
	s.step(E{"op": "rawbox", "f": f, "b": b}, func() { s.feats[f-1].BoundingBox = fl(b) })
}
func (s *store) coll() {
	s.step(E{"op": "coll"}, func() { s.colls = append(s.colls, geojson.NewFeatureCollection()) })
}
func (s *store) add(c, f int) {
	s.step(E{"op": "add", "c": c, "f": f}, func() {
		x := s.colls[c-1]
		if y := x.AddFeature(s.feats[f-1]); y != x {
			s.colls[c-1] = y
			y.CRS = map[string]interface{}{"not": "the same collection"}
		}
	})
}
func (s *store) collCrs(c, v int) {
	s.step(E{"op": "ccrs", "c": c, "v": v}, func() { s.colls[c-1].CRS = copyMap(storeCrs[v]) })
}
func (s *store) collBox(c int, b []int) {
	s.step(E{"op": "cbox", "c": c, "b": b}, func() { s.colls[c-1].BoundingBox = fl(b) })
}
func (s *store) cycle(f int) {
	ev := E{"op": "cycle", "f": f, "err": 1, "doc": E{"type": 0}}
	s.step(ev, func() {
		var b []byte
		var err error
		x := s.feats[f-1]
		switch s.d.rnd.Intn(3) {
		case 0:
			b, err = x.MarshalJSON()
		case 1:
			b, err = json.Marshal(x)
		default:
			b, err = json.Marshal(*x)
		}
		s.d.decoy(func(o []geo.Point) {
			z := geojson.NewFeature(geo.LineString(o))
			z.MarshalJSON()
			geojson.NewFeatureCollection().AddFeature(z).MarshalJSON()
		})
		if err != nil {
			return
		}
		ev["doc"] = doc(b)
		var y *geojson.Feature
		if s.d.rnd.Intn(2) == 0 {
			y, err = geojson.UnmarshalFeature(b)
		} else {
			y = new(geojson.Feature)
			err = json.Unmarshal(b, y)
		}
		ev["err"] = e2i(err)
		if err == nil {
			s.feats = append(s.feats, y)
			s.dims = append(s.dims, s.dims[f-1])
		}
	})
}
func (s *store) collCycle(c int) {
	ev := E{"op": "ccycle", "c": c, "err": 1, "doc": E{"type": 0, "feats": []E{}, "bbox": []int{}, "crs": 0}}
	s.step(ev, func() {
		var b []byte
		var err error
		x := s.colls[c-1]
		switch s.d.rnd.Intn(3) {
		case 0:
			b, err = x.MarshalJSON()
		case 1:
			b, err = json.Marshal(x)
		default:
			b, err = json.Marshal(*x)
		}
		s.d.decoy(func(o []geo.Point) {
			z := geojson.NewFeature(geo.LineString(o))
			z.MarshalJSON()
			geojson.NewFeatureCollection().AddFeature(z).MarshalJSON()
		})
		if err != nil {
			return
		}
		ev["doc"] = docColl(b)
		var y *geojson.FeatureCollection
		if s.d.rnd.Intn(2) == 0 {
			y, err = geojson.UnmarshalFeatureCollection(b)
		} else {
			y = new(geojson.FeatureCollection)
			err = json.Unmarshal(b, y)
		}
		ev["err"] = e2i(err)
		if err == nil {
			for i, f := range y.Features {
				s.feats = append(s.feats, f)
				dim := 3
				if i < len(x.Features) {
					for j, g := range s.feats {
						if g == x.Features[i] && j < len(s.dims) {
							dim = s.dims[j]
						}
					}
				}
				s.dims = append(s.dims, dim)
			}
			s.colls = append(s.colls, y)
		}
	})
}
func (s *store) get(f, k, acc int, must bool, defs []interface{}) {
	ds := [][]int{}
	for _, v := range defs {
		ds = append(ds, val5(v))
	}
	ev := E{"op": "get", "f": f, "k": k, "acc": acc, "must": b2i(must), "defs": ds, "err": 0, "res": []int{0, 0, 0, 0, 0}}
	s.step(ev, func() {
		x, key := s.feats[f-1], storeKeys[k-1]
		var r interface{}
		var err error
		switch acc {
		case 2:
			if must {
				a := []bool{}
				for _, v := range defs {
					a = append(a, v.(bool))
				}
				r = x.PropertyMustBool(key, a...)
			} else {
				r, err = x.PropertyBool(key)
			}
		case 3:
			if must {
				a := []int{}
				for _, v := range defs {
					a = append(a, v.(int))
				}
				r = x.PropertyMustInt(key, a...)
			} else {
				r, err = x.PropertyInt(key)
			}
		case 4:
			if must {
				a := []float64{}
				for _, v := range defs {
					a = append(a, v.(float64))
				}
				r = x.PropertyMustFloat64(key, a...)
			} else {
				r, err = x.PropertyFloat64(key)
			}
		case 5:
			if must {
				a := []string{}
				for _, v := range defs {
					a = append(a, v.(string))
				}
				r = x.PropertyMustString(key, a...)
			} else {
				r, err = x.PropertyString(key)
			}
		}
		ev["res"], ev["err"] = val5(r), e2i(err)
	})
}

func (s *store) done() {
	if len(s.evs) > 0 {
		s.d.hist(s.evs)
	}
}

func (d *driver) storeVal() interface{} {
	if storeKeys[0] == "a" && d.rnd.Intn(2) == 0 {
		return []interface{}{storeOthers[5], storeOthers[5], storeOthers[2], storeOthers[8]}[d.rnd.Intn(4)]
	}
	switch d.rnd.Intn(4) {
	case 0:
		return d.rnd.Intn(2001) - 1000
	case 1:
		return float64(d.rnd.Intn(8001)-4000) / 4
	case 2:
		return storeStrings[d.rnd.Intn(len(storeStrings))]
	}
	if d.rnd.Intn(6) == 0 {
		x := math.Floor(math.Ldexp(d.rnd.Float64(), 10+d.rnd.Intn(41)))
		if d.rnd.Intn(2) == 0 {
			x = -x
		}
		if d.rnd.Intn(2) == 0 {
			return int(x)
		}
		return x
	}
	if d.rnd.Intn(3) == 0 {
		return storeOthers[1+d.rnd.Intn(len(storeOthers)-1)]
	}
	return storeVals[1+d.rnd.Intn(len(storeVals)-1)]
}

func (d *driver) storeDefs(acc int) []interface{} {
	r := []interface{}{}
	for k := []int{0, 1, 1, 2}[d.rnd.Intn(4)]; k > 0; k-- {
		switch acc {
		case 2:
			r = append(r, d.rnd.Intn(2) == 0)
		case 3:
			r = append(r, d.rnd.Intn(41)-20)
		case 4:
			r = append(r, float64(d.rnd.Intn(81)-40)/4)
		case 5:
			r = append(r, storeStrings[d.rnd.Intn(len(storeStrings))])
		}
	}
	return r
}

// gridGeom is a geometry with small whole coordinates and the tokens of its coordinates.
func (d *driver) gridGeom() (geo.Geometry, int, int, []int) {
	kind, dim := 1+d.rnd.Intn(6), 2
	if d.rnd.Intn(4) == 0 {
		dim = 3
	}
	c := func() float64 { return float64(d.rnd.Intn(201) - 100) }
	pt := func() geo.PointZ { return geo.PointZ{X: c(), Y: c(), Z: c()} }
	pts := func(n int) []geo.PointZ {
		r := []geo.PointZ{}
		for ; n > 0; n-- {
			r = append(r, pt())
		}
		return r
	}
	poly := func() [][]geo.PointZ {
		s := pts(3 + d.rnd.Intn(3))
		r := [][]geo.PointZ{append(s, s[0])}
		if d.rnd.Intn(3) == 0 { // a hole spanned by shell vertices stays in the shell's box
			r = append(r, []geo.PointZ{s[0], s[1], s[2], s[0]})
		}
		return r
	}
	l2 := func(ps []geo.PointZ) []geo.Point {
		r := []geo.Point{}
		for _, p := range ps {
			r = append(r, geo.Point{X: p.X, Y: p.Y})
		}
		return r
	}
	var g geo.Geometry
	switch kind {
	case 1:
		p := pt()
		if g = p; dim == 2 {
			g = l2([]geo.PointZ{p})[0]
		}
	case 2:
		p := pts(1 + d.rnd.Intn(4))
		if g = geo.MultiPointZ(p); dim == 2 {
			g = geo.MultiPoint(l2(p))
		}
	case 3:
		p := pts(2 + d.rnd.Intn(4))
		if g = geo.LineStringZ(p); dim == 2 {
			g = geo.LineString(l2(p))
		}
	case 4:
		m, mz := geo.MultiLineString{}, geo.MultiLineStringZ{}
		for k := 1 + d.rnd.Intn(3); k > 0; k-- {
			p := pts(2 + d.rnd.Intn(3))
			m, mz = append(m, l2(p)), append(mz, p)
		}
		if g = mz; dim == 2 {
			g = m
		}
	case 5:
		m, mz := geo.Polygon{}, geo.PolygonZ{}
		for _, p := range poly() {
			m, mz = append(m, l2(p)), append(mz, p)
		}
		if g = mz; dim == 2 {
			g = m
		}
	case 6:
		m, mz := geo.MultiPolygon{}, geo.MultiPolygonZ{}
		for k := 1 + d.rnd.Intn(3); k > 0; k-- {
			a, az := geo.Polygon{}, geo.PolygonZ{}
			for _, p := range poly() {
				a, az = append(a, l2(p)), append(az, p)
			}
			m, mz = append(m, a), append(mz, az)
		}
		if g = mz; dim == 2 {
			g = m
		}
	}
	t := &nums{idx: map[uint64]int{}}
	v := geomVal(t, g)["v"]
	toks := []int{}
	raw := []byte(js(v))
	toks = lexJSON(&nums{idx: map[uint64]int{}}, raw)
	// lexJSON numbered the numbers: read them again in order
	k := 0
	var flat []int
	var walk func(x interface{})
	walk = func(x interface{}) {
		switch x := x.(type) {
		case []interface{}:
			for _, y := range x {
				walk(y)
			}
		case float64:
			flat = append(flat, int(x))
		}
	}
	var any interface{}
	json.Unmarshal(raw, &any)
	walk(any)
	for i := range toks {
		if toks[i] > 100 {
			toks[i] = 1000 + int(math.Float64frombits(t.bits[flat[k]-1]))
			k++
		}
	}
	return g, kind, dim, toks
}

var genGeoms = []struct {
	g    geo.Geometry
	kind int
	dim  int
	toks []int
}{
	{},
	{geo.Point{X: 3, Y: -2}, 1, 2, []int{1, 1003, 998, 2}},
	{geo.LineString{{X: 0, Y: 1}, {X: -5, Y: 4}}, 3, 2, []int{1, 1, 1000, 1001, 2, 1, 995, 1004, 2, 2}},
	{geo.Polygon{{{X: 0, Y: 0}, {X: 4, Y: 0}, {X: 2, Y: 3}, {X: 0, Y: 0}}}, 5, 2, []int{1, 1, 1, 1000, 1000, 2, 1, 1004, 1000, 2, 1, 1002, 1003, 2, 1, 1000, 1000, 2, 2, 2}},
	{geo.MultiPoint{{X: 9, Y: -9}, {X: 1, Y: 2}}, 2, 2, []int{1, 1, 1009, 991, 2, 1, 1001, 1002, 2, 2}},
	{geo.PointZ{X: 1, Y: 2, Z: 3}, 1, 3, []int{1, 1001, 1002, 1003, 2}},
}

func init() {
	suites["store"] = func(d *driver) {
		for d.nev < d.n {
			s := &store{d: d}
			storeKeys = storeKeySets[0]
			if d.rnd.Intn(3) > 0 {
				storeKeys = storeKeySets[d.rnd.Intn(len(storeKeySets))]
			}
			f := func() int { return 1 + d.rnd.Intn(len(s.feats)) }
			c := func() int { return 1 + d.rnd.Intn(len(s.colls)) }
			k := func() int { return 1 + d.rnd.Intn(len(storeKeys)) }
			big := d.rarely() // a collection of many features
			most := 4
			if big {
				most = 40
			}
			for n := 8 + d.rnd.Intn(25); n > 0; n-- {
				if len(s.feats) == 0 || (len(s.feats) < 8 && d.rnd.Intn(12) == 0) {
					g, kind, dim, toks := d.gridGeom()
					s.newFeature(g, kind, dim, toks, d.rnd.Intn(4) == 0)
					continue
				}
				if len(s.feats) < 8 && d.rnd.Intn(16) == 0 {
					s.twin(f())
					continue
				}
				if len(s.colls) == 0 && d.rnd.Intn(4) == 0 {
					s.coll()
					continue
				}
				r := d.rnd.Intn(40)
				if d.prop == "J04" && r >= 22 {
					r = d.rnd.Intn(25)
				}
				switch {
				case r < 9:
					s.setProp(f(), k(), d.storeVal())
				case r < 17:
					acc := 2 + d.rnd.Intn(4)
					s.get(f(), k(), acc, d.rnd.Intn(2) == 0, d.storeDefs(acc))
				case r < 19:
					s.get(f(), k(), 3, d.rnd.Intn(2) == 0, d.storeDefs(3))
				case r < 24:
					if len(s.feats) < 9 || big {
						s.cycle(f())
					}
				case r < 26:
					s.setID(f(), d.storeVal())
				case r < 28:
					s.setCrs(f(), d.rnd.Intn(3))
				case r < 31:
					s.box(f())
				case r < 32:
					s.rawBox(f(), storeBoxes[d.rnd.Intn(len(storeBoxes))])
				case len(s.colls) == 0:
				case r < 36:
					if x := c(); len(s.colls[x-1].Features) < most {
						for m := 1 + (most-4)*d.rnd.Intn(2); m > 0; m-- {
							s.add(x, f())
						}
					}
				case r < 37:
					s.collCrs(c(), d.rnd.Intn(3))
				case r < 38:
					s.collBox(c(), storeBoxes[d.rnd.Intn(len(storeBoxes))])
				default:
					if x := c(); len(s.feats)+len(s.colls[x-1].Features) <= 8+2*most-4 && len(s.colls) < 4 {
						s.collCycle(x)
					}
				}
			}
			s.done()
		}
	}
	suites["storegen"] = func(d *driver) {
		fh, err := os.Open(d.plan)
		if err != nil {
			panic(err)
		}
		defer fh.Close()
		sc := bufio.NewScanner(fh)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for sc.Scan() {
			var p struct {
				Ops [][]json.RawMessage `json:"ops"`
			}
			if err := json.Unmarshal(sc.Bytes(), &p); err != nil {
				panic(err)
			}
			s := &store{d: d}
			storeKeys = storeKeySets[d.rnd.Intn(len(storeKeySets))]
			for _, op := range p.Ops {
				var name string
				json.Unmarshal(op[0], &name)
				a := func(i int) int { var n int; json.Unmarshal(op[i], &n); return n }
				b := func(i int) []int { n := []int{}; json.Unmarshal(op[i], &n); return n }
				switch name {
				case "new":
					g := genGeoms[a(1)]
					s.newFeature(g.g, g.kind, g.dim, g.toks, d.rnd.Intn(4) == 0)
				case "coll":
					s.coll()
				case "prop":
					s.setProp(a(1), a(2), storeVals[a(3)])
				case "id":
					s.setID(a(1), storeVals[a(2)])
				case "crs":
					s.setCrs(a(1), a(2))
				case "box":
					s.box(a(1))
				case "rawbox":
					s.rawBox(a(1), b(2))
				case "cycle":
					s.cycle(a(1))
				case "get":
					s.get(a(1), a(2), a(3), d.rnd.Intn(2) == 0, d.storeDefs(a(3)))
				case "add":
					s.add(a(1), a(2))
				case "ccrs":
					s.collCrs(a(1), a(2))
				case "cbox":
					s.collBox(a(1), b(2))
				case "ccycle":
					s.collCycle(a(1))
				}
			}
			s.done()
		}
	}
}
