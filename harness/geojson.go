package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"os"
	"strings"

	geo "github.com/hzw456/go-geo"
	"github.com/hzw456/go-geo/geojson"
)

// Tokens of coordinates: 1 [ 2 ] 3 null 4 true 5 false 6 string 7 object, 100+i number.
var gjTypes = []string{"", "Point", "MultiPoint", "LineString", "MultiLineString", "Polygon", "MultiPolygon"}
var gjOther = []string{"GeometryCollection", "Feature", "Circle", "", "pointz", "PointZ", "POLYGON"}

// lexJSON reads a JSON value into tokens, with encoding/json's tokenizer only.
func lexJSON(t *nums, raw []byte) []int {
	dec := json.NewDecoder(bytes.NewReader(raw))
	dec.UseNumber()
	r := []int{}
	inObj := 0
	for {
		tok, err := dec.Token()
		if err != nil {
			return r
		}
		if dl, ok := tok.(json.Delim); ok && (dl == '{' || dl == '}') {
			if dl == '{' {
				if inObj == 0 {
					r = append(r, 7)
				}
				inObj++
			} else {
				inObj--
			}
			continue
		}
		if inObj > 0 {
			continue
		}
		switch v := tok.(type) {
		case json.Delim:
			if v == '[' {
				r = append(r, 1)
			} else {
				r = append(r, 2)
			}
		case nil:
			r = append(r, 3)
		case bool:
			r = append(r, 5-b2i(v))
		case string:
			r = append(r, 6)
		case json.Number:
			r = append(r, 100+t.of(litBits(v.String())))
		}
	}
}

func typeOf(s string) int {
	for i, n := range gjTypes {
		if i > 0 && n == s {
			return i
		}
	}
	return 8
}

func (d *driver) jsonText(toks []int, lits []string) string {
	var sb strings.Builder
	sp := func() {
		if d.rnd.Intn(5) == 0 {
			sb.WriteString([]string{" ", "\n", "\t", "  "}[d.rnd.Intn(4)])
		}
	}
	prev := 1
	for _, t := range toks {
		if t != 2 && prev != 1 {
			sb.WriteString(",")
		}
		sp()
		switch {
		case t > 100:
			sb.WriteString(lits[t-101])
		default:
			sb.WriteString([]string{"", "[", "]", "null", "true", "false", []string{`"1"`, `""`, `"x"`, `"[1,2]"`}[d.rnd.Intn(4)], []string{`{}`, `{"x":1}`, `{"coordinates":[1,2]}`}[d.rnd.Intn(3)]}[t])
		}
		prev = t
	}
	return sb.String()
}

func (d *driver) j01() {
	kind, dim := 1+d.rnd.Intn(6), 2+d.rnd.Intn(2)
	g := d.randGeom(kind, dim, []int{0, 1, 3, 6}[d.rnd.Intn(4)])
	t := &nums{idx: map[uint64]int{}}
	ev := E{"op": "encode", "g": geomVal(t, g), "toks": []int{}, "typ": 0, "eerr": 1, "err": 1, "nil": 1, "back": E{"kind": 0, "dim": 0, "v": []int{}}}
	d.planeEv(ev, func() {
		b, err := geojson.MarshalGeo(g)
		d.decoy(func(o []geo.Point) { geojson.MarshalGeo(geo.LineString(o)) })
		ev["eerr"] = e2i(err)
		if err != nil {
			return
		}
		var m map[string]json.RawMessage
		if json.Unmarshal(b, &m) != nil {
			return
		}
		var ty string
		json.Unmarshal(m["type"], &ty)
		ev["typ"] = typeOf(ty)
		ev["toks"] = lexJSON(t, m["coordinates"])
		var gj geojson.GeoJson
		if json.Unmarshal(b, &gj) != nil {
			return
		}
		back, err := geojson.UnmarshalGeo(&gj)
		ev["err"], ev["nil"] = e2i(err), b2i(back == nil)
		if err == nil {
			ev["back"] = geomVal(t, back)
		}
	})
}

// a feature made from a geometry, encoded and decoded.
func (d *driver) j03geom() {
	kind, dim := 1+d.rnd.Intn(6), 2+d.rnd.Intn(2)
	g := d.randGeom(kind, dim, []int{0, 1, 3, 6}[d.rnd.Intn(4)])
	t := &nums{idx: map[uint64]int{}}
	ev := E{"op": "feature", "g": geomVal(t, g), "toks": []int{}, "typ": 0, "toks2": []int{}, "typ2": 0, "eerr": 1, "err": 1, "nil": 1, "back": E{"kind": 0, "dim": 0, "v": []int{}}}
	inColl := d.rnd.Intn(2) == 0
	d.planeEv(ev, func() {
		f := geojson.NewFeature(g)
		f.SetProperty("a", 1)
		var b []byte
		var err error
		if inColl {
			b, err = json.Marshal(geojson.NewFeatureCollection().AddFeature(geojson.NewFeature(geo.Point{})).AddFeature(f))
		} else {
			b, err = json.Marshal(f)
			if d.rnd.Intn(2) == 0 {
				b, err = f.MarshalJSON()
			}
		}
		d.decoy(func(o []geo.Point) {
			z := geojson.NewFeature(geo.LineString(o))
			z.MarshalJSON()
			geojson.NewFeatureCollection().AddFeature(z).MarshalJSON()
		})
		ev["eerr"] = e2i(err)
		if err != nil {
			return
		}
		raw := b
		if inColl {
			var c struct{ Features []json.RawMessage }
			if json.Unmarshal(b, &c) != nil || len(c.Features) != 2 {
				return
			}
			raw = c.Features[1]
		}
		var m struct {
			Geometry struct {
				Type        string
				Coordinates json.RawMessage
			}
		}
		if json.Unmarshal(raw, &m) != nil {
			return
		}
		ev["typ"], ev["toks"] = typeOf(m.Geometry.Type), lexJSON(t, m.Geometry.Coordinates)
		var y *geojson.Feature
		if inColl {
			c, err := geojson.UnmarshalFeatureCollection(b)
			ev["err"] = e2i(err)
			if err != nil || len(c.Features) != 2 {
				return
			}
			y = c.Features[1]
		} else {
			y, err = geojson.UnmarshalFeature(b)
			ev["err"] = e2i(err)
			if err != nil {
				return
			}
		}
		if y == nil || y.GeometryJson == nil {
			return
		}
		ev["typ2"], ev["toks2"] = typeOf(y.GeometryJson.Type), lexJSON(t, []byte(js(y.GeometryJson.Coordinates)))
		back, err := geojson.UnmarshalGeo(y.GeometryJson)
		ev["nil"] = b2i(back == nil)
		if err == nil {
			ev["back"] = geomVal(t, back)
		}
	})
}

// decodes a geometry object given as type and coordinates; no tokens: no coordinates member.
func (d *driver) j02(typ int, toks []int, lits []string) {
	t := &nums{idx: map[uint64]int{}}
	for _, l := range lits {
		t.of(litBits(l))
	}
	m := []string{}
	switch {
	case typ >= 1 && typ <= 6:
		m = append(m, `"type":"`+gjTypes[typ]+`"`)
	case typ == 0: // no type
	case typ == 7:
		m = append(m, `"type":"`+strings.ToLower(gjTypes[1+d.rnd.Intn(6)])+`"`)
	default:
		m = append(m, `"type":"`+gjOther[d.rnd.Intn(len(gjOther))]+`"`)
	}
	if len(toks) > 0 {
		m = append(m, `"coordinates":`+d.jsonText(toks, lits))
	}
	if d.rnd.Intn(4) == 0 {
		m = append(m, []string{`"geometries":[]`, `"crs":{"type":"name"}`, `"bbox":[1,2,3,4]`, `"extra":null`}[d.rnd.Intn(4)])
	}
	if d.rnd.Intn(3) == 0 {
		d.rnd.Shuffle(len(m), func(i, j int) { m[i], m[j] = m[j], m[i] })
	}
	obj := "{" + strings.Join(m, ",") + "}"
	feature := d.rnd.Intn(2) == 0
	if feature && typ == 0 && len(toks) == 0 && d.rnd.Intn(2) == 0 {
		obj = "null"
	}
	d.j02text(E{"op": "decode", "typ": typ, "toks": toks}, obj, feature, t)
}

func (d *driver) j02text(ev E, obj string, feature bool, t *nums) {
	ev["text"], ev["feature"] = obj, b2i(feature)
	ev["err"], ev["nil"], ev["back"] = 1, 1, E{"kind": 0, "dim": 0, "v": []int{}}
	d.planeEv(ev, func() {
		var g geo.Geometry
		var err error
		if feature {
			var f *geojson.Feature
			f, err = geojson.UnmarshalFeature([]byte(`{"type":"Feature","geometry":` + obj + `,"properties":null}`))
			if err == nil {
				g, err = geojson.UnmarshalGeo(f.GeometryJson)
			}
		} else {
			gj := new(geojson.GeoJson)
			err = json.Unmarshal([]byte(obj), &gj)
			if err == nil {
				g, err = geojson.UnmarshalGeo(gj)
			}
		}
		ev["err"], ev["nil"] = e2i(err), b2i(g == nil)
		if err == nil && g != nil {
			ev["back"] = geomVal(t, g)
		}
	})
}

// node is a JSON value: an array of nodes or an atom token.
type node struct {
	atom int
	sub  []*node
	arr  bool
}

func parseNode(t []int, i int) (*node, int) {
	if t[i] != 1 {
		return &node{atom: t[i]}, i + 1
	}
	n := &node{arr: true}
	i++
	for t[i] != 2 {
		var s *node
		s, i = parseNode(t, i)
		n.sub = append(n.sub, s)
	}
	return n, i + 1
}
func (n *node) toks() []int {
	if !n.arr {
		return []int{n.atom}
	}
	r := []int{1}
	for _, s := range n.sub {
		r = append(r, s.toks()...)
	}
	return append(r, 2)
}
func (n *node) all(l []*node) []*node {
	l = append(l, n)
	for _, s := range n.sub {
		l = s.all(l)
	}
	return l
}

func (d *driver) mutate(n *node, nlit int) {
	l := n.all(nil)
	x := l[d.rnd.Intn(len(l))]
	atom := func() *node {
		return &node{atom: []int{3, 4, 5, 6, 7, 101, 101 + d.rnd.Intn(nlit), 101 + d.rnd.Intn(nlit)}[d.rnd.Intn(8)]}
	}
	cp := *x
	switch d.rnd.Intn(8) {
	case 0:
		*x = *atom()
	case 1:
		*x = node{arr: true}
	case 2:
		*x = node{arr: true, sub: []*node{&cp}}
	case 3:
		if x.arr && len(x.sub) > 0 {
			*x = *x.sub[d.rnd.Intn(len(x.sub))]
		}
	case 4: // drop an element
		if len(x.sub) > 0 {
			i := d.rnd.Intn(len(x.sub))
			x.sub = append(append([]*node{}, x.sub[:i]...), x.sub[i+1:]...)
		}
	case 5: // double an element
		if len(x.sub) > 0 {
			i := d.rnd.Intn(len(x.sub))
			x.sub = append(append(append([]*node{}, x.sub[:i+1]...), x.sub[i]), x.sub[i+1:]...)
		}
	case 6: // another element
		if x.arr {
			i := d.rnd.Intn(len(x.sub) + 1)
			e := atom()
			if d.rnd.Intn(3) == 0 {
				c := l[d.rnd.Intn(len(l))]
				c, _ = parseNode(c.toks(), 0)
				e = c
			}
			x.sub = append(append(append([]*node{}, x.sub[:i]...), e), x.sub[i:]...)
		}
	case 7:
		if x.arr {
			d.rnd.Shuffle(len(x.sub), func(i, j int) { x.sub[i], x.sub[j] = x.sub[j], x.sub[i] })
		}
	}
}

// coords makes the tokens of the coordinates of a kind.
func (d *driver) coords(kind, dim, nlit int) []int {
	depth := []int{0, 1, 2, 2, 3, 3, 4}[kind]
	var mk func(k int) []int
	mk = func(k int) []int {
		r := []int{1}
		if k == 1 {
			for j := 0; j < dim; j++ {
				r = append(r, 101+d.rnd.Intn(nlit))
			}
		} else {
			n := 1 + d.rnd.Intn(3)
			if d.rarely() { // many
				n += d.rnd.Intn(60)
			}
			for j := n; j > 0; j-- {
				r = append(r, mk(k-1)...)
			}
		}
		return append(r, 2)
	}
	return mk(depth)
}

func (d *driver) j02raw() {
	var s string
	switch d.rnd.Intn(3) {
	case 0:
		k := d.rnd.Intn(300)
		s = `{"type":"` + gjTypes[1+d.rnd.Intn(6)] + `","coordinates":` + strings.Repeat("[", k) + "1" + strings.Repeat("]", k) + `}`
	case 1:
		al := `[]{},:"a1.-e null`
		for k := d.rnd.Intn(30); k > 0; k-- {
			s += string(al[d.rnd.Intn(len(al))])
		}
		s = `{"type":"` + gjTypes[1+d.rnd.Intn(6)] + `","coordinates":` + s + `}`
	case 2:
		s = []string{`5`, `"x"`, `[]`, `true`, `{"type":5}`, `{"type":null,"coordinates":[1,2]}`, `{"coordinates":{}}`, `{"type":"Point","coordinates":[1e400,2]}`, `{"type":"Point","crs":5,"coordinates":[1,2]}`, `{`}[d.rnd.Intn(10)]
	}
	d.j02text(E{"op": "raw"}, s, d.rnd.Intn(2) == 0, &nums{idx: map[uint64]int{}})
}

func init() {
	suites["geojson"] = func(d *driver) {
		for d.nev < d.n {
			if d.prop == "J01" {
				d.j01()
				continue
			}
			if d.prop == "J03" {
				d.j03geom()
				continue
			}
			if d.rnd.Intn(12) == 0 {
				d.j02raw()
				continue
			}
			lits := append([]string{}, plain...)
			d.rnd.Shuffle(len(lits), func(i, j int) { lits[i], lits[j] = lits[j], lits[i] })
			lits = lits[:3+d.rnd.Intn(8)]
			kind := 1 + d.rnd.Intn(6)
			if d.rnd.Intn(2) == 0 {
				kind = []int{1, 3, 5}[d.rnd.Intn(3)]
			}
			t := d.coords(kind, 2+d.rnd.Intn(2), len(lits))
			if d.rnd.Intn(8) == 0 {
				kind = d.rnd.Intn(10)
			}
			if k := []int{0, 1, 1, 1, 2, 3}[d.rnd.Intn(6)]; k > 0 {
				n, _ := parseNode(t, 0)
				for ; k > 0; k-- {
					d.mutate(n, len(lits))
				}
				t = n.toks()
			} else if d.rnd.Intn(20) == 0 {
				t = []int{}
			}
			d.j02(kind, t, lits)
		}
	}
	suites["geojsongen"] = func(d *driver) {
		f, err := os.Open(d.plan)
		if err != nil {
			panic(err)
		}
		defer f.Close()
		sc := bufio.NewScanner(f)
		for sc.Scan() {
			var p struct {
				Typ  int   `json:"typ"`
				Toks []int `json:"toks"`
			}
			if err := json.Unmarshal(sc.Bytes(), &p); err != nil {
				panic(err)
			}
			d.j02(p.Typ, p.Toks, plain)
		}
	}
}
