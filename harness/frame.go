package main

// Frame suite: one memory (arrays of coordinates and of headers, with overlapping views into
// them), calls on the views, and after every call what changed in the whole memory.

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"

	geo "github.com/hzw456/go-geo"
	"github.com/hzw456/go-geo/geojson"
	"github.com/hzw456/go-geo/wkt"
)

func init() { suites["frame"] = frameSuite }

type frame struct {
	d     *driver
	P, S  []geo.Point // planar; small degrees, for the cell covering
	Z     []geo.PointZ
	R, SR []geo.LinearRing
	RZ    []geo.LinearRingZ
	L     []geo.LineString
	LZ    []geo.LineStringZ
	G     []geo.Polygon
	GZ    []geo.PolygonZ
	B     []geo.Box
	kept  []interface{}
	seen  [][]string
	ev    []E
	tried []fcall
}

type fcall struct {
	op   string
	args []interface{}
	f    func(a []interface{}) interface{}
}

// ---- what is in memory, to the bit

func hx(x ...float64) string {
	b := strings.Builder{}
	for _, v := range x {
		b.WriteString(strconv.FormatUint(math.Float64bits(v), 16))
		b.WriteByte(' ')
	}
	return b.String()
}

// where says where a slice header points: array, offset, length, capacity.
func (f *frame) where(h reflect.Value) string {
	if h.IsNil() {
		return "nil"
	}
	p := h.Pointer()
	for k, a := range []interface{}{f.P, f.S, f.Z, f.R, f.SR, f.RZ, f.L, f.LZ, f.G, f.GZ} {
		v := reflect.ValueOf(a)
		lo, sz := v.Pointer(), v.Type().Elem().Size()
		if p >= lo && p < lo+uintptr(v.Cap())*sz {
			return fmt.Sprintf("%d+%d:%d:%d", k, (p-lo)/sz, h.Len(), h.Cap())
		}
	}
	return fmt.Sprintf("elsewhere:%d:%d", h.Len(), h.Cap())
}

func (f *frame) snap() [][]string {
	m := [][]string{}
	pts := func(a []geo.Point) {
		s := []string{}
		for _, p := range a {
			s = append(s, hx(p.X, p.Y))
		}
		m = append(m, s)
	}
	heads := func(a interface{}) {
		v := reflect.ValueOf(a)
		s := []string{}
		for i := 0; i < v.Len(); i++ {
			s = append(s, f.where(v.Index(i)))
		}
		m = append(m, s)
	}
	pts(f.P)
	pts(f.S)
	s := []string{}
	for _, p := range f.Z {
		s = append(s, hx(p.X, p.Y, p.Z))
	}
	m = append(m, s)
	for _, a := range []interface{}{f.R, f.SR, f.RZ, f.L, f.LZ, f.G, f.GZ} {
		heads(a)
	}
	s = []string{}
	for _, b := range f.B {
		s = append(s, hx(b.MinX, b.MinY, b.MaxX, b.MaxY))
	}
	m = append(m, s)
	for _, k := range f.kept {
		m = append(m, []string{digest(show(k))})
	}
	return m
}

// diff lists the cells that changed since the last look.
func (f *frame) diff() [][]interface{} {
	now := f.snap()
	ch := [][]interface{}{}
	for a := range f.seen {
		for i := range f.seen[a] {
			if now[a][i] != f.seen[a][i] {
				ch = append(ch, []interface{}{a + 1, i + 1, now[a][i]})
			}
		}
	}
	f.seen = now
	return ch
}

func digest(s string) string {
	if len(s) <= 40 {
		return s
	}
	h := sha256.Sum256([]byte(s))
	return s[:24] + "#" + hex.EncodeToString(h[:8])
}

// show writes a value, following pointers, floats exactly.
func show(v interface{}) string {
	b := &strings.Builder{}
	showTo(b, reflect.ValueOf(v))
	return b.String()
}
func showTo(b *strings.Builder, v reflect.Value) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if e, ok := v.Interface().(error); ok {
			b.WriteString("error " + e.Error())
			return
		}
		showTo(b, v.Elem())
	case reflect.Float64, reflect.Float32:
		b.WriteString(strconv.FormatFloat(v.Float(), 'g', -1, 64))
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			b.WriteString(v.Type().Name() + "nil")
			return
		}
		if v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8 {
			b.WriteString(string(v.Bytes()))
			return
		}
		b.WriteString(v.Type().Name() + "[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteByte(' ')
			}
			showTo(b, v.Index(i))
		}
		b.WriteByte(']')
	case reflect.Struct:
		b.WriteString(v.Type().Name() + "{")
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				b.WriteByte(' ')
			}
			if v.Field(i).CanInterface() {
				showTo(b, v.Field(i))
			} else {
				fmt.Fprintf(b, "%v", v.Field(i))
			}
		}
		b.WriteByte('}')
	default:
		fmt.Fprintf(b, "%v", v)
	}
}

// clone copies a value deeply into storage of its own.
func clone(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(clone(v.Index(i)))
		}
		return n
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		return clone(v.Elem())
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type().Elem())
		n.Elem().Set(clone(v.Elem()))
		return n
	}
	return v
}

// ---- building

func (f *frame) coord() float64 {
	r := f.d.rnd
	switch r.Intn(12) {
	case 0:
		return float64(r.Intn(19)-9) / 2
	case 1:
		return math.Copysign(0, -1)
	}
	return float64(r.Intn(13) - 3)
}

// lay fills an array with rings and runs; it returns [offset, length, isRing].
func lay(d *driver, n int, set func(i int, p [2]float64), c func() [2]float64) (secs [][3]int) {
	o := 0
	for o < n {
		l := 2 + d.rnd.Intn(6)
		if d.rnd.Intn(10) == 0 {
			l = 12 + d.rnd.Intn(6) // beyond the simple sorts
		}
		ring := d.rnd.Intn(3) > 0 && l >= 4
		if o+l > n {
			l, ring = n-o, false
		}
		var first [2]float64
		if ring && d.rnd.Intn(2) == 0 { // a simple one
			sr := d.simpleRing(5)
			if len(sr) <= n-o {
				l = len(sr)
				for i, p := range sr {
					q := [2]float64{float64(p[0]), float64(p[1])}
					if i == 0 {
						first = q
					}
					set(o+i, q)
				}
			} else {
				ring = false
			}
		} else {
			for i := 0; i < l; i++ {
				p := c()
				if i == 0 {
					first = p
				}
				set(o+i, p)
			}
		}
		if ring {
			switch d.rnd.Intn(3) {
			case 0: // closed within the tolerance only
				set(o+l-1, [2]float64{first[0] + 4e-7, first[1] - 3e-7})
			default:
				set(o+l-1, first)
			}
			secs = append(secs, [3]int{o, l, 1})
		} else if l > 0 {
			secs = append(secs, [3]int{o, l, 0})
		}
		o += l
		if d.rnd.Intn(3) == 0 && o < n {
			set(o, c())
			o++
		}
	}
	return
}

func (d *driver) newFrame() *frame {
	f := &frame{d: d}
	r := d.rnd
	c := func() [2]float64 { return [2]float64{f.coord(), f.coord()} }
	f.P = make([]geo.Point, 30)
	ps := lay(d, 30, func(i int, p [2]float64) { f.P[i] = geo.Point{p[0], p[1]} }, c)
	f.Z = make([]geo.PointZ, 18)
	zs := lay(d, 18, func(i int, p [2]float64) { f.Z[i] = geo.PointZ{p[0], p[1], f.coord()} }, c)
	for _, s := range zs {
		if s[2] == 1 {
			f.Z[s[0]+s[1]-1].Z = f.Z[s[0]].Z
		}
	}
	clip := func(o, l, n int) int { // capacity of a view
		if r.Intn(3) == 0 {
			return o + l
		}
		return n
	}
	for _, s := range ps {
		if s[2] == 1 {
			f.R = append(f.R, geo.LinearRing(f.P[s[0]:s[0]+s[1]:clip(s[0], s[1], 30)]))
		}
		f.L = append(f.L, geo.LineString(f.P[s[0]:s[0]+s[1]:clip(s[0], s[1], 30)]))
	}
	for len(f.R) < 3 { // a caller's ring may be unclosed, and share points with others
		o := r.Intn(24)
		l := 4 + r.Intn(3)
		f.R = append(f.R, geo.LinearRing(f.P[o:o+l:clip(o, l, 30)]))
	}
	r.Shuffle(len(f.R), func(i, j int) { f.R[i], f.R[j] = f.R[j], f.R[i] })
	for _, s := range zs {
		if s[1] >= 3 {
			f.RZ = append(f.RZ, geo.LinearRingZ(f.Z[s[0]:s[0]+s[1]:clip(s[0], s[1], 18)]))
		}
		f.LZ = append(f.LZ, geo.LineStringZ(f.Z[s[0]:s[0]+s[1]:clip(s[0], s[1], 18)]))
	}
	for len(f.RZ) < 2 {
		f.RZ = append(f.RZ, geo.LinearRingZ(f.Z[1:5]))
	}
	f.G = make([]geo.Polygon, 4)
	for i := range f.G {
		a := r.Intn(len(f.R))
		b := a + 1 + r.Intn(imin(2, len(f.R)-a))
		f.G[i] = geo.Polygon(f.R[a:b:clip(a, b-a, len(f.R))])
	}
	f.GZ = make([]geo.PolygonZ, 3)
	for i := range f.GZ {
		a := r.Intn(len(f.RZ))
		b := a + 1 + r.Intn(imin(2, len(f.RZ)-a))
		f.GZ[i] = geo.PolygonZ(f.RZ[a:b:clip(a, b-a, len(f.RZ))])
	}
	for i := 0; i < 4; i++ {
		x, y := f.coord(), f.coord()
		f.B = append(f.B, geo.Box{x, y, x + float64(r.Intn(4)), y + float64(r.Intn(4))})
	}
	// small-degree simple rings for the cell covering
	f.S = make([]geo.Point, 0, 40)
	sp := [][2]int{}
	for i := 0; i < 2; i++ {
		sr := d.scramble(d.simpleRing(3))
		for len(sr) > 16 {
			sr = d.scramble(d.simpleRing(3))
		}
		x, y := float64(r.Intn(300)-150), float64(r.Intn(120)-60)
		o := len(f.S)
		for _, p := range sr {
			f.S = append(f.S, geo.Point{x + float64(p[0])/2, y + float64(p[1])/2})
		}
		if r.Intn(2) == 0 {
			f.S[len(f.S)-1].X += 4e-7
		}
		sp = append(sp, [2]int{o, len(f.S)})
	}
	for _, s := range sp {
		f.SR = append(f.SR, geo.LinearRing(f.S[s[0]:s[1]]))
	}
	f.S = f.S[:cap(f.S)]
	f.seen = f.snap()
	return f
}

// ---- arguments

func (f *frame) pts() []geo.Point {
	if f.d.rnd.Intn(2) == 0 {
		return f.L[f.d.rnd.Intn(len(f.L))]
	}
	if f.d.rnd.Intn(2) == 0 {
		return f.R[f.d.rnd.Intn(len(f.R))]
	}
	o := f.d.rnd.Intn(26)
	l := 2 + f.d.rnd.Intn(imin(14, 28-o))
	return f.P[o : o+l]
}
func (f *frame) line() geo.LineString {
	if f.d.rnd.Intn(2) == 0 {
		return f.L[f.d.rnd.Intn(len(f.L))]
	}
	return geo.LineString(f.pts())
}
func (f *frame) linez() geo.LineStringZ {
	if f.d.rnd.Intn(2) == 0 {
		return f.LZ[f.d.rnd.Intn(len(f.LZ))]
	}
	o := f.d.rnd.Intn(14)
	return geo.LineStringZ(f.Z[o : o+2+f.d.rnd.Intn(16-o)])
}
func (f *frame) ring() geo.LinearRing { return f.R[f.d.rnd.Intn(len(f.R))] }
func (f *frame) poly() geo.Polygon {
	if f.d.rnd.Intn(3) == 0 {
		a := f.d.rnd.Intn(len(f.R))
		return geo.Polygon(f.R[a : a+1])
	}
	return f.G[f.d.rnd.Intn(len(f.G))]
}
func (f *frame) mline() geo.MultiLineString {
	a := f.d.rnd.Intn(len(f.L))
	return geo.MultiLineString(f.L[a : a+1+f.d.rnd.Intn(imin(3, len(f.L)-a))])
}
func (f *frame) mpoly() geo.MultiPolygon {
	a := f.d.rnd.Intn(len(f.G))
	return geo.MultiPolygon(f.G[a : a+1+f.d.rnd.Intn(imin(3, len(f.G)-a))])
}
func (f *frame) geom2() geo.Geometry {
	switch f.d.rnd.Intn(7) {
	case 0:
		return f.P[f.d.rnd.Intn(30)]
	case 1:
		return geo.MultiPoint(f.pts())
	case 2:
		return f.line()
	case 3:
		return f.mline()
	case 4:
		return f.mpoly()
	}
	return f.poly()
}
func (f *frame) geomz() geo.Geometry {
	switch f.d.rnd.Intn(7) {
	case 0:
		return f.Z[f.d.rnd.Intn(18)]
	case 1:
		return geo.MultiPointZ(f.linez())
	case 2:
		return f.linez()
	case 3:
		a := f.d.rnd.Intn(len(f.LZ))
		return geo.MultiLineStringZ(f.LZ[a : a+1+f.d.rnd.Intn(imin(3, len(f.LZ)-a))])
	case 4:
		return geo.MultiPolygonZ(f.GZ[:1+f.d.rnd.Intn(3)])
	}
	return f.GZ[f.d.rnd.Intn(len(f.GZ))]
}
func (f *frame) pt() geo.Point { return f.P[f.d.rnd.Intn(len(f.P))] }
func (f *frame) seg() geo.LineSegment {
	return geo.LineSegment{Start: f.pt(), End: f.pt()}
}

const plane = geo.SRID(0)

type many []interface{}

type fop struct {
	name string
	args func(f *frame) []interface{}
	run  func(a []interface{}) interface{}
}

type A = []interface{}

func aLine(f *frame) A  { return A{f.line()} }
func aPts(f *frame) A   { return A{f.pts()} }
func aPoly(f *frame) A  { return A{f.poly()} }
func aGeom2(f *frame) A { return A{f.geom2()} }
func aAny(f *frame) A {
	if f.d.rnd.Intn(2) == 0 {
		return A{f.geomz()}
	}
	return A{f.geom2()}
}
func ln(a interface{}) geo.LineString { return a.(geo.LineString) }
func pp(a interface{}) geo.Point      { return a.(geo.Point) }
func pg(a interface{}) geo.Polygon    { return a.(geo.Polygon) }
func srid(f *frame) geo.SRID {
	if f.d.rnd.Intn(4) == 0 {
		return geo.SRID_WGS84_GPS
	}
	return plane
}
func both(g []byte, err error) interface{} { return many{g, err} }

var fops = []fop{
	{"ConvexHull", aPts, func(a A) interface{} { return geo.ConvexHull(a[0].([]geo.Point)...) }},
	{"Mbr", aGeom2, func(a A) interface{} { return geo.Mbr(a[0].(geo.Geometry)) }},
	{"DouglasPeuckerSimplify", func(f *frame) A {
		return A{f.line(), float64(f.d.rnd.Intn(7)) / 2, srid(f)}
	}, func(a A) interface{} {
		return geo.DouglasPeuckerSimplify(ln(a[0]), a[1].(float64), a[2].(geo.SRID))
	}},
	{"BoundingBox", aGeom2, func(a A) interface{} { return geo.BoundingBox(a[0].(geo.Geometry)) }},
	{"GetArea", aGeom2, func(a A) interface{} { return geo.GetArea(a[0].(geo.Geometry)) }},
	{"MultiPolyArea", func(f *frame) A { return A{f.mpoly()} }, func(a A) interface{} { return geo.MultiPolyArea(a[0].(geo.MultiPolygon)) }},
	{"Centroid", aGeom2, func(a A) interface{} { return geo.Centroid(a[0].(geo.Geometry)) }},
	{"LinearCentroid", func(f *frame) A { return A{f.ring()} }, func(a A) interface{} { return geo.LinearCentroid(a[0].(geo.LinearRing)) }},
	{"PointPolygonDistance", func(f *frame) A { return A{f.pt(), f.poly(), srid(f)} }, func(a A) interface{} {
		return geo.PointPolygonDistance(pp(a[0]), pg(a[1]), a[2].(geo.SRID))
	}},
	{"PointHitLineString", func(f *frame) A { return A{f.pt(), f.line(), srid(f)} }, func(a A) interface{} {
		p, i, r := geo.PointHitLineString(pp(a[0]), ln(a[1]), a[2].(geo.SRID))
		return many{p, i, r}
	}},
	{"HausdorffDistance", func(f *frame) A { return A{f.line(), f.line(), srid(f)} }, func(a A) interface{} {
		return geo.HausdorffDistance(ln(a[0]), ln(a[1]), a[2].(geo.SRID))
	}},
	{"PointToSegmentDistance", func(f *frame) A { return A{f.pt(), f.pt(), f.pt(), srid(f)} }, func(a A) interface{} {
		x, p := geo.PointToSegmentDistance(pp(a[0]), pp(a[1]), pp(a[2]), a[3].(geo.SRID))
		return many{x, p}
	}},
	{"RotateCW", func(f *frame) A { return A{f.geom2(), f.pt(), float64(f.d.rnd.Intn(9)) * math.Pi / 4} }, func(a A) interface{} {
		return geo.RotateCW(a[0].(geo.Geometry), pp(a[1]), a[2].(float64))
	}},
	{"RotateCCW", func(f *frame) A { return A{f.poly(), f.pt(), float64(f.d.rnd.Intn(9)) * math.Pi / 3} }, func(a A) interface{} {
		return geo.RotateCCW(pg(a[0]), pp(a[1]), a[2].(float64))
	}},
	{"IsPointInPolygon", func(f *frame) A { return A{f.pt(), f.poly()} }, func(a A) interface{} { return geo.IsPointInPolygon(pp(a[0]), pg(a[1])) }},
	{"SegmentRelation", func(f *frame) A { return A{f.seg(), f.seg()} }, func(a A) interface{} {
		return geo.SegmentRelation(a[0].(geo.LineSegment), a[1].(geo.LineSegment))
	}},
	{"SegPolyRelation", func(f *frame) A { return A{f.seg(), f.poly()} }, func(a A) interface{} {
		return geo.SegPolyRelation(a[0].(geo.LineSegment), pg(a[1]))
	}},
	{"LinePolyRelation", func(f *frame) A { return A{f.line(), f.poly()} }, func(a A) interface{} { return geo.LinePolyRelation(ln(a[0]), pg(a[1])) }},
	{"LinearPolyRelation", func(f *frame) A { return A{f.ring(), f.poly()} }, func(a A) interface{} {
		return geo.LinearPolyRelation(a[0].(geo.LinearRing), pg(a[1]))
	}},
	{"PolyRelation", func(f *frame) A { return A{f.poly(), f.poly()} }, func(a A) interface{} { return geo.PolyRelation(pg(a[0]), pg(a[1])) }},
	{"IsPointOnLine", func(f *frame) A { return A{f.pt(), f.line()} }, func(a A) interface{} { return geo.IsPointOnLine(pp(a[0]), ln(a[1])) }},
	{"LineRelation", func(f *frame) A { return A{f.line(), f.line()} }, func(a A) interface{} { return geo.LineRelation(ln(a[0]), ln(a[1])) }},
	{"Verify", func(f *frame) A { return A{&f.G[f.d.rnd.Intn(len(f.G))]} }, func(a A) interface{} { return a[0].(*geo.Polygon).Verify() }},
	{"SelfIntersect", aPoly, func(a A) interface{} { return pg(a[0]).SelfIntersect() }},
	{"IsCCW", aPoly, func(a A) interface{} { return pg(a[0]).IsCCW() }},
	{"GetExteriorRing", aPoly, func(a A) interface{} { return pg(a[0]).GetExteriorRing() }},
	{"GetInteriorRing", aPoly, func(a A) interface{} { return pg(a[0]).GetInteriorRing() }},
	{"GetExteriorPoints", aPoly, func(a A) interface{} { return pg(a[0]).GetExteriorPoints() }},
	{"LineLength", aLine, func(a A) interface{} { return ln(a[0]).Length() }},
	{"LineVerify", aLine, func(a A) interface{} { return ln(a[0]).Verify() }},
	{"LineEqual", func(f *frame) A { return A{f.line(), f.line()} }, func(a A) interface{} { return ln(a[0]).Equal(ln(a[1])) }},
	{"LineEnds", aLine, func(a A) interface{} {
		l := ln(a[0])
		return many{l.GetFirstPoint(), l.GetEndPoint(), l.GetPoint(0), l.GetPoint(1), l.GetPointCount(), l.GetPointSet()}
	}},
	{"SplitByIndex", func(f *frame) A { l := f.line(); return A{l, f.d.rnd.Intn(len(l))} }, func(a A) interface{} {
		x, y := ln(a[0]).SplitByIndex(a[1].(int))
		return many{x, y}
	}},
	{"ToRing", aLine, func(a A) interface{} { return ln(a[0]).ToRing() }},
	{"NewLinearRing", aPts, func(a A) interface{} { return geo.NewLinearRing(a[0].([]geo.Point)...) }},
	{"NewLineString", aPts, func(a A) interface{} { return geo.NewLineString(a[0].([]geo.Point)...) }},
	{"NewMultiPoint", aPts, func(a A) interface{} { return geo.NewMultiPoint(a[0].([]geo.Point)...) }},
	{"NewPolygonFromPois", aPts, func(a A) interface{} { return geo.NewPolygonFromPois(a[0].([]geo.Point)...) }},
	{"NewPolygon", aPoly, func(a A) interface{} { return geo.NewPolygon([]geo.LinearRing(pg(a[0]))...) }},
	{"NewMultiPolygon", func(f *frame) A { return A{f.mpoly()} }, func(a A) interface{} {
		return geo.NewMultiPolygon([]geo.Polygon(a[0].(geo.MultiPolygon))...)
	}},
	{"NewMultiLineString", func(f *frame) A { return A{f.mline()} }, func(a A) interface{} {
		return geo.NewMultiLineString([]geo.LineString(a[0].(geo.MultiLineString))...)
	}},
	{"ToRingZ", func(f *frame) A { return A{f.linez()} }, func(a A) interface{} { return a[0].(geo.LineStringZ).ToRing() }},
	{"LineEqualZ", func(f *frame) A { return A{f.linez(), f.linez()} }, func(a A) interface{} {
		return a[0].(geo.LineStringZ).Equal(a[1].(geo.LineStringZ))
	}},
	{"NewLinearRingZ", func(f *frame) A { return A{f.linez()} }, func(a A) interface{} {
		return geo.NewLinearRingZ([]geo.PointZ(a[0].(geo.LineStringZ))...)
	}},
	{"S2RegionCoverer", func(f *frame) A {
		i := f.d.rnd.Intn(len(f.SR))
		return A{geo.Polygon(f.SR[i : i+1]), 4 + f.d.rnd.Intn(5)}
	}, func(a A) interface{} {
		r := geo.S2RegionCoverer(pg(a[0]), a[1].(int), geo.SRID_WGS84_GPS)
		r = append([]uint64{}, r...)
		sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
		return r
	}},
	{"WktEncode", aAny, func(a A) interface{} { return wkt.Encode(a[0].(geo.Geometry)) }},
	{"MarshalGeo", aAny, func(a A) interface{} { return both(geojson.MarshalGeo(a[0].(geo.Geometry))) }},
	{"Feature", aGeom2, func(a A) interface{} {
		ft := geojson.NewFeature(a[0].(geo.Geometry))
		if a[0].(geo.Geometry).Type() != geo.GEOMETRY_POINT {
			ft.SetBoundingBox()
		}
		fc := geojson.NewFeatureCollection()
		fc.AddFeature(ft)
		return both(fc.MarshalJSON())
	}},
	{"ConvertPoiSet", aLine, func(a A) interface{} { r, e := geojson.ConvertPoiSet(ln(a[0])); return many{r, e} }},
	{"ConvertPathSet", aPoly, func(a A) interface{} { r, e := geojson.ConvertPathSet(pg(a[0])); return many{r, e} }},
	{"ConvertPolygonSet", func(f *frame) A { return A{f.mpoly()} }, func(a A) interface{} {
		r, e := geojson.ConvertPolygonSet(a[0].(geo.MultiPolygon))
		return many{r, e}
	}},
	{"BoxUnion", func(f *frame) A {
		r := A{}
		for i, n := 0, 1+f.d.rnd.Intn(3); i < n; i++ {
			r = append(r, &f.B[f.d.rnd.Intn(len(f.B))])
		}
		return r
	}, func(a A) interface{} {
		bs := []*geo.Box{}
		for _, b := range a {
			bs = append(bs, b.(*geo.Box))
		}
		return geo.BoxUnion(bs...)
	}},
	{"BoxOps", func(f *frame) A {
		return A{&f.B[f.d.rnd.Intn(len(f.B))], &f.B[f.d.rnd.Intn(len(f.B))], f.pt()}
	}, func(a A) interface{} {
		x, y := a[0].(*geo.Box), a[1].(*geo.Box)
		return many{x.Union(y), x.Intersect(y), x.Contain(y), x.Size(), geo.IsPointInBox(x, pp(a[2])), geo.BoxToGeo(*x)}
	}},
	{"Index", func(f *frame) A {
		return A{f.geom2(), f.geom2(), f.geom2(), f.geom2(), f.pt(), &f.B[f.d.rnd.Intn(len(f.B))]}
	}, func(a A) interface{} {
		sp := []geo.Spatial{}
		for i := 0; i < 4; i++ {
			sp = append(sp, geo.Spatial{ID: strconv.Itoa(i), Geom: a[i].(geo.Geometry)})
		}
		t := geo.NewMinMaxTree(2, 4, sp...)
		t.Insert(geo.Spatial{ID: "4", Geom: a[4].(geo.Geometry)})
		name := func(s []geo.Spatial) (r []string) {
			for _, x := range s {
				r = append(r, x.ID)
			}
			return
		}
		b := a[5].(*geo.Box)
		hit := name(t.SearchIntersect(b))
		sort.Strings(hit)
		return many{hit, name(t.SearchBySpatialID("2")), t.Delete(sp[1]), t.Size(), len(t.NearestNeighbors(3, pp(a[4])))}
	}},
}

func key(op string, args A) string {
	b := &strings.Builder{}
	b.WriteString(op)
	for _, a := range args {
		fmt.Fprintf(b, "|%T", a)
		exactly(b, reflect.ValueOf(a))
	}
	h := sha256.Sum256([]byte(b.String()))
	return op + "#" + hex.EncodeToString(h[:8])
}

// exactly writes a value with its floats to the bit.
func exactly(b *strings.Builder, v reflect.Value) {
	switch v.Kind() {
	case reflect.Float64:
		b.WriteString(strconv.FormatUint(math.Float64bits(v.Float()), 16) + " ")
	case reflect.Ptr, reflect.Interface:
		exactly(b, v.Elem())
	case reflect.Slice:
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			exactly(b, v.Index(i))
		}
		b.WriteByte(']')
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			exactly(b, v.Field(i))
		}
	default:
		fmt.Fprintf(b, "%v;", v)
	}
}

func guarded(c fcall) (v interface{}, s string) {
	defer func() {
		if r := recover(); r != nil {
			v, s = nil, "panic"
		}
	}()
	v = c.f(c.args)
	return v, digest(show(v))
}

func (f *frame) pick() fcall {
	o := fops[f.d.rnd.Intn(len(fops))]
	return fcall{o.name, o.args(f), o.run}
}

// step makes one call and records what it changed.
func (f *frame) step(c fcall) {
	ev := E{"op": "call", "key": key(c.op, c.args), "arg": digest(show(c.args)), "tw": "-"}
	f.d.flight(ev, len(f.ev) == 0)
	var keep interface{}
	if f.d.rnd.Intn(3) == 0 {
		cp := c
		cp.args = clone(reflect.ValueOf(c.args)).Interface().(A)
		_, tw := guarded(cp)
		ev["tw"] = tw
	}
	v, s := guarded(c)
	ev["res"] = s
	if v != nil && len(f.kept) < 8 && f.d.rnd.Intn(2) == 0 {
		keep = v
	}
	ev["chg"] = f.diff()
	ev["new"] = []string{}
	if keep != nil {
		f.kept = append(f.kept, keep)
		f.seen = append(f.seen, []string{digest(show(keep))})
		ev["new"] = []string{f.seen[len(f.seen)-1][0]}
	}
	f.ev = append(f.ev, ev)
	f.tried = append(f.tried, c)
}

// write is the caller changing a coordinate of its own.
func (f *frame) write() {
	f.kept = nil // results may be views
	f.seen = f.seen[:11]
	i := f.d.rnd.Intn(len(f.P))
	ev := E{"op": "write", "a": 1, "i": i + 1}
	if f.d.rnd.Intn(4) == 0 {
		i = f.d.rnd.Intn(len(f.Z))
		f.Z[i].X, f.Z[i].Z = f.coord(), f.coord()
		ev["a"], ev["i"], ev["v"] = 3, i+1, hx(f.Z[i].X, f.Z[i].Y, f.Z[i].Z)
	} else {
		f.P[i] = geo.Point{f.coord(), f.coord()}
		ev["v"] = hx(f.P[i].X, f.P[i].Y)
	}
	ev["chg"] = f.diff()
	f.d.flight(ev, len(f.ev) == 0)
	f.ev = append(f.ev, ev)
}

// par makes calls of the past again, all at once.
func (f *frame) par(n, each int) {
	cs := []fcall{}
	for i := 0; i < n; i++ {
		cs = append(cs, f.tried[f.d.rnd.Intn(len(f.tried))])
	}
	ev := E{"op": "par"}
	f.d.flight(ev, false)
	alone := []string{}
	for _, c := range cs {
		_, s := guarded(c)
		alone = append(alone, s)
	}
	res := make([][]string, n)
	var wg sync.WaitGroup
	start := make(chan bool)
	keys := []string{}
	for i := range cs {
		keys = append(keys, key(cs[i].op, cs[i].args))
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			for k := 0; k < each; k++ {
				_, s := guarded(cs[i])
				res[i] = append(res[i], s)
			}
		}(i)
	}
	close(start)
	wg.Wait()
	calls := []E{}
	for i := range cs {
		u := map[string]bool{}
		rs := []string{}
		for _, s := range res[i] {
			if !u[s] {
				u[s] = true
				rs = append(rs, s)
			}
		}
		calls = append(calls, E{"key": keys[i], "alone": alone[i], "res": rs})
	}
	ev["calls"] = calls
	ev["chg"] = f.diff()
	f.ev = append(f.ev, ev)
}

func frameSuite(d *driver) {
	for d.nev < d.n {
		f := d.newFrame()
		mem := f.seen
		for i := 0; i < 40; i++ {
			switch r := d.rnd.Intn(10); {
			case r == 0:
				f.write()
			case r < 3 && len(f.tried) > 0: // again
				f.step(f.tried[d.rnd.Intn(len(f.tried))])
			case r == 3 && len(f.tried) > 4 && d.rnd.Intn(3) == 0:
				f.par(6, 4)
			default:
				f.step(f.pick())
			}
		}
		d.line(E{"mem": mem, "ev": f.ev})
		d.nev += len(f.ev)
		d.nhist++
	}
}
