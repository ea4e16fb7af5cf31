package main

import (
	"encoding/json"
	"math"
	"reflect"

	geo "github.com/hzw456/go-geo"
)

// T01: one geometry of each kind, built, edited and looked at.

func init() { suites["kinds"] = kindsSuite; suites["kindsgen"] = kindsGenSuite }

var makers = map[string]interface{}{
	"Point": geo.NewPoint, "PointZ": geo.NewPointZ, "MultiPoint": geo.NewMultiPoint, "MultiPointZ": geo.NewMultiPointZ,
	"LineString": geo.NewLineString, "LineStringZ": geo.NewLineStringZ, "MultiLineString": geo.NewMultiLineString, "MultiLineStringZ": geo.NewMultiLineStringZ,
	"Polygon": geo.NewPolygon, "PolygonZ": geo.NewPolygonZ, "MultiPolygon": geo.NewMultiPolygon, "MultiPolygonZ": geo.NewMultiPolygonZ,
}
var poisMakers = map[string]interface{}{"Polygon": geo.NewPolygonFromPois, "PolygonZ": geo.NewPolygonZFromPois}
var adders = map[string]string{"MultiPoint": "Append", "MultiPointZ": "Append", "LineString": "Append", "LineStringZ": "Append", "Polygon": "AddInteriorRing", "PolygonZ": "AddInteriorRing", "MultiPolygon": "AddPolygon", "MultiPolygonZ": "AddPolygonZ"}

// coder maps small integers to coordinates and back.
type coder struct{ f func(int) float64 }

func (c coder) back(x float64) int {
	for n := -200; n <= 200; n++ {
		if c.f(n) == x {
			return n
		}
	}
	return off
}

var coders = []coder{
	{func(n int) float64 { return float64(n) }},
	{func(n int) float64 { return float64(n)/8 + 100 }},
	{func(n int) float64 { return float64(n) * 0.1 }},
	{func(n int) float64 { return float64(n) * 1e300 }},
	{func(n int) float64 { return math.Pi * float64(n*n*n) }},
	{func(n int) float64 { return float64(n) * 1e-7 }}, // within the precision of each other
}

// coder picks one; closing a ring goes by the precision, so its points stay apart.
func (d *driver) coder(ops [][]interface{}) coder {
	n := len(coders)
	if ops[0][0] == "pois" {
		n--
	}
	return coders[d.rnd.Intn(n)]
}

// build makes a value of type t out of nested numbers.
func (c coder) build(t reflect.Type, v interface{}) reflect.Value {
	l, _ := v.([]interface{})
	if t.Kind() == reflect.Struct {
		r := reflect.New(t).Elem()
		for i := range l {
			r.Field(i).SetFloat(c.f(int(l[i].(float64))))
		}
		return r
	}
	r := reflect.MakeSlice(t, 0, len(l))
	for _, x := range l {
		r = reflect.Append(r, c.build(t.Elem(), x))
	}
	return r
}

// show is the inverse.
func (c coder) show(v reflect.Value) interface{} {
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return []interface{}{}
		}
		return []interface{}{c.show(v.Elem())}
	}
	if v.Kind() == reflect.Struct {
		r := []int{}
		for i := 0; i < v.NumField(); i++ {
			r = append(r, c.back(v.Field(i).Float()))
		}
		return r
	}
	if v.Kind() == reflect.Int {
		return int(v.Int())
	}
	r := []interface{}{}
	for i := 0; i < v.Len(); i++ {
		r = append(r, c.show(v.Index(i)))
	}
	return r
}

// make calls a constructor, then changes the list it was given.
func (c coder) make(f interface{}, v interface{}) (reflect.Value, int) {
	fn := reflect.ValueOf(f)
	l := v.([]interface{})
	if !fn.Type().IsVariadic() {
		args := []reflect.Value{}
		for _, x := range l {
			args = append(args, reflect.ValueOf(c.f(int(x.(float64)))))
		}
		return fn.Call(args)[0], 1
	}
	in := fn.Type().In(0)
	list := c.build(in, v)
	r := fn.CallSlice([]reflect.Value{list})[0]
	before, _ := json.Marshal(c.show(r))
	for i := 0; i < list.Len(); i++ {
		list.Index(i).Set(reflect.Zero(in.Elem()))
	}
	after, _ := json.Marshal(c.show(r))
	return r, b2i(string(before) == string(after))
}

func (c coder) views(kind string, g reflect.Value) []interface{} {
	ask := func(names ...string) []interface{} {
		r := []interface{}{}
		for _, n := range names {
			v := g.MethodByName(n).Call(nil)[0]
			if v.Kind() == reflect.Struct && v.IsZero() && g.Elem().Len() < 2 { // the origin stands for none
				r = append(r, []int{})
				continue
			}
			r = append(r, c.show(v))
		}
		return r
	}
	switch kind {
	case "MultiPoint", "MultiPointZ":
		return ask("GetPointSet")
	case "LineString", "LineStringZ":
		return ask("GetPointSet", "GetPointCount", "GetFirstPoint", "GetEndPoint")
	case "Polygon", "PolygonZ":
		return ask("GetExteriorRing", "GetExteriorPoints", "GetInteriorRing")
	}
	return []interface{}{}
}

func (d *driver) kindHist(ops [][]interface{}, c coder) {
	evs := []E{}
	var g reflect.Value // pointer to the geometry
	kind := ""
	for n, op := range ops {
		ev := E{"do": op, "type": "", "v": []int{}, "views": []int{}, "kept": 0}
		d.flight(ev, n == 0)
		ev["pn"] = d.call(func() {
			kept := 1
			switch op[0] {
			case "make":
				kind = op[1].(string)
				g, kept = c.make(makers[kind], op[2])
				if l := g.Elem(); l.Kind() == reflect.Slice && l.Len() == 0 && d.rnd.Intn(2) == 0 { // empty, but not nil
					l.Set(reflect.MakeSlice(l.Type(), 0, d.rnd.Intn(3)))
				}
			case "pois":
				kind = op[1].(string)
				g, kept = c.make(poisMakers[kind], op[2])
			case "set":
				g.MethodByName([]string{"SetX", "SetY", "SetZ"}[int(op[1].(float64))-1]).Call([]reflect.Value{reflect.ValueOf(c.f(int(op[2].(float64))))})
			case "add", "shell":
				name := adders[kind]
				if op[0] == "shell" {
					name = "SetExteriorRing"
				}
				m := g.MethodByName(name)
				m.Call([]reflect.Value{c.build(m.Type().In(0), op[1])})
			}
			ev["type"] = string(g.Elem().Interface().(geo.Geometry).Type())
			ev["v"], ev["kept"] = c.show(g.Elem()), kept
			ev["views"] = c.views(kind, g)
		})
		evs = append(evs, ev)
		if ev["pn"] != 0 {
			break
		}
	}
	d.hist(evs)
}

func kindsGenSuite(d *driver) {
	d.behaviours(func(b []byte) {
		var ops [][]interface{}
		if err := json.Unmarshal(b, &ops); err != nil {
			panic(err)
		}
		d.kindHist(ops, d.coder(ops))
	})
}

// random longer histories
func kindsSuite(d *driver) {
	names := []string{}
	for _, n := range []string{"Point", "MultiPoint", "LineString", "MultiLineString", "Polygon", "MultiPolygon"} {
		names = append(names, n, n+"Z")
	}
	depths := []int{0, 1, 1, 2, 2, 3}
	for d.nev < d.n {
		k := d.rnd.Intn(len(names))
		kind, dim, depth := names[k], 2+k%2, depths[k/2]
		var part func(depth int) []interface{}
		part = func(depth int) []interface{} {
			r := []interface{}{}
			if depth == 0 {
				for i := 0; i < dim; i++ {
					r = append(r, float64(d.rnd.Intn(300)-150))
				}
				return r
			}
			n := d.rnd.Intn(6)
			if d.rnd.Intn(100) == 0 { // many
				n += d.rnd.Intn(70)
			}
			for i := n; i > 0; i-- {
				r = append(r, part(depth-1))
			}
			return r
		}
		ops := [][]interface{}{}
		if poisMakers[kind] != nil && d.rnd.Intn(3) == 0 {
			ps := []interface{}{part(0), part(0)}
			n := d.rnd.Intn(6)
			if d.rarely() {
				n += d.rnd.Intn(70)
			}
			for i := n; i > 0; i-- {
				ps = append(ps, part(0))
			}
			if d.rnd.Intn(2) == 0 {
				ps = append(ps, ps[0])
			}
			ops = append(ops, []interface{}{"pois", kind, ps})
		} else {
			ops = append(ops, []interface{}{"make", kind, part(depth)})
		}
		for i := d.rnd.Intn(14); i > 0; i-- {
			switch {
			case depth == 0:
				ops = append(ops, []interface{}{"set", float64(1 + d.rnd.Intn(dim)), float64(d.rnd.Intn(300) - 150)})
			case depth == 2 && kind[:3] == "Pol" && d.rnd.Intn(3) == 0:
				ops = append(ops, []interface{}{"shell", part(1)})
			case adders[kind] != "":
				ops = append(ops, []interface{}{"add", part(depth - 1)})
			}
		}
		d.kindHist(ops, d.coder(ops))
	}
}
