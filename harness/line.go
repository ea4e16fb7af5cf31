package main

import (
	"bufio"
	"encoding/json"
	"os"
	"reflect"

	geo "github.com/hzw456/go-geo"
)

// Coordinates are multiples of a unit, one for each history: two of it are within the
// library's coordinate tolerance (1e-6), three are not. The smallest brings three close to
// the tolerance, the largest brings two close to it.
var units = []float64{1. / (1 << 21), 358. / (1 << 30), 536. / (1 << 30)}
var unit = units[0]

func (d *driver) lineHistory() *lhist {
	unit = units[d.rnd.Intn(len(units))]
	return &lhist{d: d}
}

type fp []int // two or three ordinates

func p2(p fp) geo.Point { return geo.Point{X: float64(p[0]) * unit, Y: float64(p[1]) * unit} }
func p3(p fp) geo.PointZ {
	return geo.PointZ{X: float64(p[0]) * unit, Y: float64(p[1]) * unit, Z: float64(p[2]) * unit}
}
func f2(p geo.Point) fp  { return fp{qu(p.X), qu(p.Y)} }
func f3(p geo.PointZ) fp { return fp{qu(p.X), qu(p.Y), qu(p.Z)} }
func qu(x float64) int {
	v := x / unit
	if v != float64(int(v)) || v > 9e8 || v < -9e8 {
		return 987654321
	}
	return int(v)
}
func fs2(ps []geo.Point) []fp {
	r := []fp{}
	for _, p := range ps {
		r = append(r, f2(p))
	}
	return r
}
func fs3(ps []geo.PointZ) []fp {
	r := []fp{}
	for _, p := range ps {
		r = append(r, f3(p))
	}
	return r
}

// handle is one live piece of geometry of a history.
type handle struct {
	kind  string // line ring poly lineZ ringZ polyZ guard
	l     *geo.LineString
	r     geo.LinearRing
	p     *geo.Polygon
	lz    *geo.LineStringZ
	rz    geo.LinearRingZ
	pz    *geo.PolygonZ
	m     *geo.MultiPoint
	mz    *geo.MultiPointZ
	owner int // for a guard: the line in whose spare capacity it lives
	live  bool
}

func (h *handle) value() interface{} {
	switch h.kind {
	case "line", "guard":
		return fs2(*h.l)
	case "mpt":
		return fs2(*h.m)
	case "mptZ":
		return fs3(*h.mz)
	case "ring":
		return fs2(h.r)
	case "lineZ":
		return fs3(*h.lz)
	case "ringZ":
		return fs3(h.rz)
	case "poly":
		v := [][]fp{}
		for _, r := range *h.p {
			v = append(v, fs2(r))
		}
		return v
	default:
		v := [][]fp{}
		for _, r := range *h.pz {
			v = append(v, fs3(r))
		}
		return v
	}
}

type lhist struct {
	d    *driver
	hs   []*handle
	ev   []E
	dead bool
}

func (h *lhist) step(ev E, f func()) {
	if h.dead {
		return
	}
	ev["new"] = []E{}
	h.d.flight(ev, len(h.ev) == 0)
	n := len(h.hs)
	ev["pn"] = h.d.call(f)
	if ev["pn"].(int) != 0 {
		h.dead = true
		h.hs = h.hs[:n]
	}
	nw := []E{}
	for i := n; i < len(h.hs); i++ {
		nw = append(nw, E{"k": h.hs[i].kind, "v": h.hs[i].value()})
	}
	ev["new"] = nw
	all := []E{}
	for i, x := range h.hs {
		if x.live {
			all = append(all, E{"h": i + 1, "v": x.value()})
		}
	}
	ev["all"] = all
	h.ev = append(h.ev, ev)
}

func (h *lhist) add(x *handle) { x.live = true; h.hs = append(h.hs, x) }

func (h *lhist) of(kinds ...string) int {
	c := []int{}
	for i, x := range h.hs {
		for _, k := range kinds {
			if x.live && x.kind == k {
				c = append(c, i)
			}
		}
	}
	if len(c) == 0 {
		return -1
	}
	// the younger ones more often
	return c[len(c)-1-imin(h.d.rnd.Intn(len(c)), h.d.rnd.Intn(len(c)))]
}

func (h *lhist) retire() {
	n := 0
	for _, x := range h.hs {
		if x.live {
			n++
		}
	}
	for n > 9 {
		i := h.d.rnd.Intn(len(h.hs))
		if h.hs[i].live {
			h.kill(i)
			n--
		}
	}
}

// kill drops a handle (and what lives in its spare capacity) from the history.
func (h *lhist) kill(i int) {
	h.step(E{"op": "drop", "h": i + 1, "o": 0}, func() { h.hs[i].live = false })
	for j, x := range h.hs {
		if x.live && x.kind == "guard" && x.owner == i {
			h.step(E{"op": "drop", "h": j + 1, "o": 0}, func() { x.live = false })
		}
	}
}

// grown: a guard may legitimately be written by its owner growing.
func (h *lhist) grows(i int) {
	for j, x := range h.hs {
		if x.live && x.kind == "guard" && x.owner == i {
			y := x
			h.step(E{"op": "drop", "h": j + 1, "o": 0}, func() { y.live = false })
		}
	}
}

func (d *driver) fpt(z bool) fp {
	q := func() int {
		switch d.rnd.Intn(4) {
		case 0:
			if d.rnd.Intn(2) == 0 { // some hundreds
				return d.rnd.Intn(1600000000) - 800000000
			}
			return d.rnd.Intn(2000000) - 1000000
		case 1:
			return 3 * (d.rnd.Intn(3) - 1)
		}
		return d.rnd.Intn(7) - 3 // within or just outside the tolerance of each other
	}
	p := fp{q(), q()}
	if z {
		p = append(p, q())
	}
	return p
}

func (h *lhist) pts(n int, z bool) []fp {
	r := []fp{}
	for len(r) < n {
		p := h.d.fpt(z)
		if len(r) > 0 && h.d.rnd.Intn(4) == 0 { // near the first
			p = append(fp{}, r[0]...)
			p[h.d.rnd.Intn(len(p))] += h.d.rnd.Intn(7) - 3
		}
		r = append(r, p)
	}
	return r
}

func g2(ps []fp) []geo.Point {
	r := []geo.Point{}
	for _, p := range ps {
		r = append(r, p2(p))
	}
	return r
}
func g3(ps []fp) []geo.PointZ {
	r := []geo.PointZ{}
	for _, p := range ps {
		r = append(r, p3(p))
	}
	return r
}

// newLine makes a line by the constructor, or as a slice with spare capacity whose
// remainder another live line occupies.
func (h *lhist) newLine(given []fp, spare int) {
	ev := E{"op": "line", "given": given, "spare": spare}
	h.step(ev, func() {
		if spare == 0 {
			src := g2(given)
			l := geo.NewLineString(src...)
			for i := range src { // the caller's list is the caller's
				src[i].X += 5
			}
			h.add(&handle{kind: "line", l: l})
			return
		}
		arr := make([]geo.Point, len(given)+spare)
		copy(arr, g2(given))
		for i := len(given); i < len(arr); i++ {
			arr[i] = p2(fp{70 + i, 900})
		}
		l, g := geo.LineString(arr[:len(given)]), geo.LineString(arr[len(given):])
		h.add(&handle{kind: "line", l: &l})
		h.add(&handle{kind: "guard", l: &g, owner: len(h.hs) - 1})
	})
}

func (h *lhist) newLineZ(given []fp, spare int) {
	h.step(E{"op": "lineZ", "given": given, "spare": 0}, func() {
		if spare == 0 {
			h.add(&handle{kind: "lineZ", lz: geo.NewLineStringZ(g3(given)...)})
			return
		}
		arr := make([]geo.PointZ, len(given), len(given)+spare)
		copy(arr, g3(given))
		l := geo.LineStringZ(arr)
		h.add(&handle{kind: "lineZ", lz: &l})
	})
}

func e2i(e error) int { return b2i(e != nil) }

func (h *lhist) pos(n int) int {
	switch h.d.rnd.Intn(8) {
	case 0:
		return n
	case 1:
		return n + 1 + h.d.rnd.Intn(3)
	case 2:
		return -1 - h.d.rnd.Intn(3)
	case 3:
		return n - 1
	case 4:
		return n - 2
	}
	return h.d.rnd.Intn(n + 1)
}

func (h *lhist) edit(i, what, pos int, p fp) {
	x := h.hs[i]
	if what != 2 && what != 4 {
		h.grows(i)
	}
	switch what {
	case 0:
		ev := E{"op": "append", "h": i + 1, "p": p, "err": 0}
		h.step(ev, func() {
			if x.kind == "lineZ" {
				ev["err"] = e2i(x.lz.Append(p3(p)))
			} else {
				ev["err"] = e2i(x.l.Append(p2(p)))
			}
		})
	case 1:
		ev := E{"op": "set", "h": i + 1, "i": pos, "p": p, "err": 0}
		h.step(ev, func() { ev["err"] = e2i(x.l.SetPoint(pos, p2(p))) })
	case 2:
		ev := E{"op": "del", "h": i + 1, "i": pos, "err": 0}
		h.step(ev, func() { ev["err"] = e2i(x.l.DelPoint(pos)) })
	case 3:
		ev := E{"op": "ins", "h": i + 1, "i": pos, "p": p, "err": 0}
		h.step(ev, func() { ev["err"] = e2i(x.l.InsertPoint(pos, p2(p))) })
	case 4:
		h.step(E{"op": "rev", "h": i + 1}, func() {
			if x.kind == "lineZ" {
				x.lz.Reverse()
			} else {
				x.l.Reverse()
			}
		})
	}
}

func (h *lhist) look(i int) {
	x := h.hs[i]
	n := 0
	if x.kind == "line" {
		n = len(*x.l)
	}
	pos := h.pos(n)
	ev := E{"op": "look", "h": i + 1, "i": pos, "n": -1, "set": []fp{}, "get": []fp{}, "first": []fp{}, "end": []fp{}, "bad": 0}
	h.step(ev, func() {
		if x.kind == "lineZ" {
			ev["op"] = "lookZ"
			ev["n"] = x.lz.GetPointCount()
			ev["set"] = fs3(x.lz.GetPointSet())
			ev["first"], ev["end"] = []fp{f3(x.lz.GetFirstPoint())}, []fp{f3(x.lz.GetEndPoint())}
			return
		}
		ev["n"] = x.l.GetPointCount()
		ev["set"] = fs2(x.l.GetPointSet())
		if p := x.l.GetPoint(pos); p != nil {
			ev["get"] = []fp{f2(*p)}
		}
		if p := x.l.GetFirstPoint(); p != nil {
			ev["first"] = []fp{f2(*p)}
		}
		if p := x.l.GetEndPoint(); p != nil {
			ev["end"] = []fp{f2(*p)}
		}
		ev["bad"] = e2i(x.l.Verify())
	})
}

func (h *lhist) equal(i, j int) {
	x, y := h.hs[i], h.hs[j]
	ev := E{"op": "eq", "h": i + 1, "k": j + 1, "r": []int{}}
	h.step(ev, func() {
		if x.kind == "lineZ" {
			ev["r"] = []int{b2i(x.lz.Equal(*y.lz)), b2i(y.lz.Equal(*x.lz))}
		} else {
			ev["r"] = []int{b2i(x.l.Equal(*y.l)), b2i(y.l.Equal(*x.l))}
		}
	})
}

// nearCopy makes a line equal, or nearly equal, to another.
func (h *lhist) nearCopy(i int) {
	x := h.hs[i]
	if x.kind == "lineZ" {
		v := fs3(*x.lz)
		h.vary(v)
		h.newLineZ(v, 0)
	} else {
		v := fs2(*x.l)
		h.vary(v)
		h.newLine(v, 0)
	}
	h.equal(i, len(h.hs)-1)
}
func (h *lhist) vary(v []fp) {
	for k := h.d.rnd.Intn(3); k > 0 && len(v) > 0; k-- {
		q := v[h.d.rnd.Intn(len(v))]
		q[h.d.rnd.Intn(len(q))] += h.d.rnd.Intn(7) - 3
	}
}

func (h *lhist) split(i, pos int) {
	h.step(E{"op": "split", "h": i + 1, "i": pos}, func() {
		a, b := h.hs[i].l.SplitByIndex(pos)
		h.add(&handle{kind: "line", l: &a})
		h.add(&handle{kind: "line", l: &b})
	})
}

func (h *lhist) ring(i int, way int) {
	x := h.hs[i]
	h.step(E{"op": "ring", "h": i + 1}, func() {
		if x.kind == "lineZ" {
			var r geo.LinearRingZ
			if way == 0 {
				r = x.lz.ToRing()
			} else {
				r = *geo.NewRingFromLineZ(*x.lz)
			}
			h.add(&handle{kind: "ringZ", rz: r})
			return
		}
		var r geo.LinearRing
		if way == 0 {
			r = x.l.ToRing()
		} else {
			r = *geo.NewRingFromLine(*x.l)
		}
		h.add(&handle{kind: "ring", r: r})
	})
}

func (h *lhist) newRing(given []fp, z bool) {
	op := "newring"
	if z {
		op = "newringZ"
	}
	h.step(E{"op": op, "given": given}, func() {
		if z {
			src := g3(given)
			r := *geo.NewLinearRingZ(src...)
			src[0].X += 3
			h.add(&handle{kind: "ringZ", rz: r})
			return
		}
		src := g2(given)
		r := *geo.NewLinearRing(src...)
		src[0].X += 3
		h.add(&handle{kind: "ring", r: r})
	})
}

// sub makes a line, ring or multipoint of part of another live geometry's points.
func (h *lhist) sub(i, a, b int, as string) {
	x := h.hs[i]
	h.step(E{"op": "sub", "h": i + 1, "a": a, "b": b, "as": as}, func() {
		var src []geo.Point
		var srz []geo.PointZ
		switch x.kind {
		case "line":
			src = x.l.GetPointSet()[a:b]
		case "ring":
			src = x.r.GetPointSet()[a:b]
		case "mpt":
			src = x.m.GetPointSet()[a:b]
		case "lineZ":
			srz = x.lz.GetPointSet()[a:b]
		case "ringZ":
			srz = x.rz.GetPointSet()[a:b]
		case "mptZ":
			srz = x.mz.GetPointSet()[a:b]
		}
		if src != nil {
			switch as {
			case "line":
				h.add(&handle{kind: "line", l: geo.NewLineString(src...)})
			case "ring":
				h.add(&handle{kind: "ring", r: *geo.NewLinearRing(src...)})
			case "poly":
				h.add(&handle{kind: "poly", p: geo.NewPolygonFromPois(src...)})
			default:
				h.add(&handle{kind: "mpt", m: geo.NewMultiPoint(src...)})
			}
			return
		}
		switch as {
		case "line":
			h.add(&handle{kind: "lineZ", lz: geo.NewLineStringZ(srz...)})
		case "ring":
			h.add(&handle{kind: "ringZ", rz: *geo.NewLinearRingZ(srz...)})
		case "poly":
			h.add(&handle{kind: "polyZ", pz: geo.NewPolygonZFromPois(srz...)})
		default:
			h.add(&handle{kind: "mptZ", mz: geo.NewMultiPointZ(srz...)})
		}
	})
}

func (h *lhist) someSub() {
	i := h.of("line", "ring", "lineZ", "ringZ", "mpt", "mptZ")
	if i < 0 {
		return
	}
	n := reflect.ValueOf(h.hs[i].value()).Len()
	if n == 0 {
		return
	}
	a := h.d.rnd.Intn(n)
	if h.d.rnd.Intn(2) == 0 {
		a = 0
	}
	b := a + 1 + h.d.rnd.Intn(n-a)
	as := []string{"line", "line", "ring", "poly", "mpt"}[h.d.rnd.Intn(5)]
	if b-a < 2 {
		as = []string{"line", "mpt"}[h.d.rnd.Intn(2)]
	}
	h.sub(i, a, b, as)
}

// mappend appends to a multipoint.
func (h *lhist) mappend() {
	i := h.of("mpt", "mptZ")
	if i < 0 {
		return
	}
	x := h.hs[i]
	h.mappendOf(i, h.d.fpt(x.kind == "mptZ"))
}

func (h *lhist) mappendOf(i int, p fp) {
	x := h.hs[i]
	h.step(E{"op": "mappend", "h": i + 1, "p": p}, func() {
		if x.kind == "mptZ" {
			x.mz.Append(p3(p))
		} else {
			x.m.Append(p2(p))
		}
	})
}

// polyFrom makes a polygon of the first rings of another.
func (h *lhist) polyFrom() {
	i := h.of("poly", "polyZ")
	if i < 0 {
		return
	}
	x := h.hs[i]
	h.polyFromOf(i, 1+h.d.rnd.Intn(reflect.ValueOf(x.value()).Len()))
}

func (h *lhist) polyFromOf(i, k int) {
	x := h.hs[i]
	h.step(E{"op": "polyfrom", "h": i + 1, "k": k}, func() {
		if x.kind == "poly" {
			h.add(&handle{kind: "poly", p: geo.NewPolygon((*x.p)[:k]...)})
		} else {
			h.add(&handle{kind: "polyZ", pz: geo.NewPolygonZ((*x.pz)[:k]...)})
		}
	})
}

func (h *lhist) poly(z bool) {
	k := 1 + h.d.rnd.Intn(3)
	kind := "ring"
	if z {
		kind = "ringZ"
	}
	ids := []int{}
	for ; k > 0; k-- {
		if r := h.of(kind); r >= 0 {
			ids = append(ids, r)
		}
	}
	if len(ids) == 0 {
		return
	}
	h.polyOf(ids, z)
}

func (h *lhist) polyOf(ids []int, z bool) {
	is := []int{}
	for _, i := range ids {
		is = append(is, i+1)
	}
	h.step(E{"op": "poly", "rings": is}, func() {
		if z {
			rs := []geo.LinearRingZ{}
			for _, i := range ids {
				rs = append(rs, h.hs[i].rz)
			}
			p := geo.NewPolygonZ(rs...)
			for i := range rs { // the caller's list is the caller's
				rs[i] = nil
			}
			h.add(&handle{kind: "polyZ", pz: p})
			return
		}
		rs := []geo.LinearRing{}
		for _, i := range ids {
			rs = append(rs, h.hs[i].r)
		}
		p := geo.NewPolygon(rs...)
		for i := range rs {
			rs[i] = nil
		}
		h.add(&handle{kind: "poly", p: p})
	})
}

func (h *lhist) polyEdit() {
	i := h.of("poly", "polyZ")
	if i < 0 {
		return
	}
	x := h.hs[i]
	kind := "ring"
	if x.kind == "polyZ" {
		kind = "ringZ"
	}
	r := h.of(kind)
	if r < 0 {
		return
	}
	h.polyEditOf(i, r, h.d.rnd.Intn(3))
}

func (h *lhist) polyEditOf(i, r, what int) {
	x := h.hs[i]
	switch what {
	case 0:
		h.step(E{"op": "setext", "h": i + 1, "ring": r + 1}, func() {
			if x.kind == "poly" {
				x.p.SetExteriorRing(h.hs[r].r)
			} else {
				x.pz.SetExteriorRing(h.hs[r].rz)
			}
		})
	case 1:
		h.step(E{"op": "addint", "h": i + 1, "ring": r + 1}, func() {
			if x.kind == "poly" {
				x.p.AddInteriorRing(h.hs[r].r)
			} else {
				x.pz.AddInteriorRing(h.hs[r].rz)
			}
		})
	case 2:
		ev := E{"op": "parts", "h": i + 1, "ext": []fp{}, "extp": []fp{}, "ints": [][]fp{}}
		h.step(ev, func() {
			ints := [][]fp{}
			if x.kind == "poly" {
				ev["ext"], ev["extp"] = fs2(x.p.GetExteriorRing()), fs2(x.p.GetExteriorPoints())
				for _, r := range x.p.GetInteriorRing() {
					ints = append(ints, fs2(r))
				}
			} else {
				ev["ext"], ev["extp"] = fs3(x.pz.GetExteriorRing()), fs3(x.pz.GetExteriorPoints())
				for _, r := range x.pz.GetInteriorRing() {
					ints = append(ints, fs3(r))
				}
			}
			ev["ints"] = ints
		})
	}
}

// multi builds collections and looks at them at once.
func (h *lhist) multi() {
	d := h.d
	switch d.rnd.Intn(5) {
	case 4: // a ring read as a line
		i := h.of("ring", "ringZ")
		if i < 0 {
			return
		}
		ev := E{"op": "rline", "h": i + 1, "res": []fp{}}
		h.step(ev, func() {
			if x := h.hs[i]; x.kind == "ring" {
				ev["res"] = fs2(x.r.ToLineString())
			} else {
				ev["res"] = fs3(x.rz.ToLineString())
			}
		})
	case 0:
		given := h.pts(d.rnd.Intn(4), false)
		more := h.pts(d.rnd.Intn(3), false)
		ev := E{"op": "mpoint", "given": append(append([]fp{}, given...), more...), "res": []fp{}}
		h.step(ev, func() {
			m := geo.NewMultiPoint(g2(given)...)
			for _, p := range more {
				m.Append(p2(p))
			}
			ev["res"] = fs2(m.GetPointSet())
		})
	case 1:
		given := h.pts(d.rnd.Intn(4), true)
		more := h.pts(d.rnd.Intn(3), true)
		ev := E{"op": "mpoint", "given": append(append([]fp{}, given...), more...), "res": []fp{}}
		h.step(ev, func() {
			m := geo.NewMultiPointZ(g3(given)...)
			for _, p := range more {
				m.Append(p3(p))
			}
			ev["res"] = fs3(m.GetPointSet())
		})
	case 2:
		kind := []string{"line", "lineZ"}[d.rnd.Intn(2)]
		ids := []int{}
		for k := d.rnd.Intn(4); k > 0; k-- {
			if i := h.of(kind); i >= 0 {
				ids = append(ids, i+1)
			}
		}
		ev := E{"op": "mparts", "kept": 1, "parts": ids, "res": [][]fp{}}
		h.step(ev, func() {
			res := [][]fp{}
			if kind == "line" {
				ls := []geo.LineString{}
				for _, i := range ids {
					ls = append(ls, *h.hs[i-1].l)
				}
				for _, l := range *geo.NewMultiLineString(ls...) {
					res = append(res, fs2(l))
				}
			} else {
				ls := []geo.LineStringZ{}
				for _, i := range ids {
					ls = append(ls, *h.hs[i-1].lz)
				}
				for _, l := range *geo.NewMultiLineStringZ(ls...) {
					res = append(res, fs3(l))
				}
			}
			ev["res"] = res
		})
	case 3:
		kind := []string{"poly", "polyZ"}[d.rnd.Intn(2)]
		ids := []int{}
		for k := d.rnd.Intn(4); k > 0; k-- {
			if i := h.of(kind); i >= 0 {
				ids = append(ids, i+1)
			}
		}
		cut := d.rnd.Intn(len(ids) + 1)
		ev := E{"op": "mparts", "kept": 1, "parts": ids, "res": [][][]fp{}}
		h.step(ev, func() {
			res := [][][]fp{}
			if kind == "poly" {
				ps := []geo.Polygon{}
				for _, i := range ids[:cut] {
					ps = append(ps, *h.hs[i-1].p)
				}
				own := append(append([]geo.Polygon{}, ps...), nil, nil, nil)
				m := geo.NewMultiPolygon(own[:len(ps)]...)
				for _, i := range ids[cut:] {
					m.AddPolygon(*h.hs[i-1].p)
				}
				for _, g := range own[len(ps):] { // the rest of the caller's list
					if g != nil {
						ev["kept"] = 0
					}
				}
				for _, p := range *m {
					v := [][]fp{}
					for _, r := range p {
						v = append(v, fs2(r))
					}
					res = append(res, v)
				}
			} else {
				ps := []geo.PolygonZ{}
				for _, i := range ids[:cut] {
					ps = append(ps, *h.hs[i-1].pz)
				}
				own := append(append([]geo.PolygonZ{}, ps...), nil, nil, nil)
				m := geo.NewMultiPolygonZ(own[:len(ps)]...)
				for _, i := range ids[cut:] {
					m.AddPolygonZ(*h.hs[i-1].pz)
				}
				for _, g := range own[len(ps):] {
					if g != nil {
						ev["kept"] = 0
					}
				}
				for _, p := range *m {
					v := [][]fp{}
					for _, r := range p {
						v = append(v, fs3(r))
					}
					res = append(res, v)
				}
			}
			ev["res"] = res
		})
	}
}

func init() {
	suites["line"] = lineSuite
	suites["linegen"] = lineGen
}

func (h *lhist) random() {
	d := h.d
	der := d.prop == "L02"
	switch c := d.rnd.Intn(12); {
	case c == 0 && d.rnd.Intn(2) == 0:
		h.someSub()
	case c == 0:
		h.newLine(h.pts(d.rnd.Intn(6), false), d.rnd.Intn(3))
	case c == 1:
		h.newLineZ(h.pts(1+d.rnd.Intn(5), true), d.rnd.Intn(3))
	case c < 6 || (c < 8 && !der):
		i := h.of("line", "lineZ")
		if i < 0 {
			return
		}
		if h.hs[i].kind == "lineZ" {
			h.edit(i, []int{0, 4}[d.rnd.Intn(2)], 0, d.fpt(true))
			return
		}
		h.edit(i, d.rnd.Intn(5), h.pos(len(*h.hs[i].l)), d.fpt(false))
	case c == 8 && (!der || d.rnd.Intn(3) == 0):
		if i := h.of("line", "lineZ"); i >= 0 {
			switch d.rnd.Intn(3) {
			case 0:
				h.look(i)
			case 1:
				if j := h.of(h.hs[i].kind); j >= 0 {
					h.equal(i, j)
				}
			case 2:
				h.nearCopy(i)
			}
		}
	case c == 9 || c == 6:
		if i := h.of("line"); i >= 0 && len(*h.hs[i].l) > 0 {
			h.split(i, d.rnd.Intn(len(*h.hs[i].l)))
		}
	case c == 10 || c == 7:
		if i := h.of("line", "lineZ"); i >= 0 {
			if x := h.hs[i]; x.kind == "line" && len(*x.l) >= 2 || x.kind == "lineZ" && len(*x.lz) >= 2 {
				h.ring(i, d.rnd.Intn(2))
			}
		} else {
			z := d.rnd.Intn(2) == 0
			h.newRing(h.pts(2+d.rnd.Intn(4), z), z)
		}
	default:
		switch d.rnd.Intn(7) {
		case 4:
			h.someSub()
		case 5:
			h.mappend()
		case 6:
			h.polyFrom()
		case 0:
			z := d.rnd.Intn(2) == 0
			h.newRing(h.pts(2+d.rnd.Intn(4), z), z)
		case 1:
			h.poly(d.rnd.Intn(2) == 0)
		case 2:
			h.polyEdit()
		case 3:
			h.multi()
		}
	}
}

// stations compares long regular lines that differ in one place and agree in their
// ends, their length, their box or their number of points.
func (d *driver) stations() {
	h := d.lineHistory()
	n := 3 + d.rnd.Intn(20)
	if d.rnd.Intn(3) == 0 {
		n = 60 + d.rnd.Intn(90)
	}
	z := d.rnd.Intn(4) == 0
	ax := d.rnd.Intn(2)
	base := func() []fp {
		r := []fp{}
		for i := 0; i < n; i++ {
			p := fp{0, 0}
			if z {
				p = append(p, i*3)
			}
			p[ax] = i * 1000
			r = append(r, p)
		}
		return r
	}
	mk := func(v []fp) {
		if z {
			h.newLineZ(v, 0)
		} else {
			h.newLine(v, 0)
		}
	}
	mk(base())
	for k := 1 + d.rnd.Intn(4); k > 0 && !h.dead; k-- {
		v := base()
		i, j := d.rnd.Intn(n), d.rnd.Intn(n)
		switch d.rnd.Intn(6) {
		case 0: // along the line: the length stays
			v[i][ax] += 400
		case 1:
			v[i], v[j] = v[j], v[i]
		case 2:
			for a, b := 0, n-1; a < b; a, b = a+1, b-1 {
				v[a], v[b] = v[b], v[a]
			}
		case 3:
			v[i][1-ax] += d.rnd.Intn(5)
		case 4:
			v[i] = append(fp{}, v[j]...)
		}
		mk(v)
		h.equal(0, len(h.hs)-1)
	}
	if !h.dead && d.rnd.Intn(2) == 0 {
		h.edit(0, 4, 0, nil)
		h.equal(0, len(h.hs)-1)
	}
	d.hist(h.ev)
}

func lineSuite(d *driver) {
	for d.nev < d.n {
		if d.rnd.Intn(12) == 0 {
			d.stations()
			continue
		}
		h := d.lineHistory()
		first := d.rnd.Intn(6)
		if d.rnd.Intn(12) == 0 { // a long line
			first = 6 + d.rnd.Intn(90)
		}
		h.newLine(h.pts(first, false), d.rnd.Intn(3))
		for s := 10 + d.rnd.Intn(40); s > 0 && !h.dead; s-- {
			h.random()
			h.retire()
		}
		d.hist(h.ev)
	}
}

// lineGen replays histories generated from the specification.
func lineGen(d *driver) {
	f, err := os.Open(d.plan)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var p struct {
			Ops [][]json.RawMessage `json:"ops"`
		}
		if err := json.Unmarshal(sc.Bytes(), &p); err != nil {
			panic(err)
		}
		h := d.lineHistory()
		id := map[int]int{} // the specification's handle -> ours
		next := 1
		bind := func(k int) {
			for j := 0; j < k; j++ {
				id[next] = len(h.hs) - k + j
				next++
			}
		}
		for _, o := range p.Ops {
			if h.dead {
				break
			}
			num := func(k int) (n int) { json.Unmarshal(o[k], &n); return }
			pt := func(k int) (q fp) { json.Unmarshal(o[k], &q); return }
			var op string
			json.Unmarshal(o[0], &op)
			switch op {
			case "line":
				var g []fp
				json.Unmarshal(o[1], &g)
				if g == nil {
					g = []fp{}
				}
				h.newLine(g, num(2))
				if h.dead {
					break
				}
				if num(2) > 0 {
					id[next] = len(h.hs) - 2
				} else {
					id[next] = len(h.hs) - 1
				}
				next++
			case "append":
				h.edit(id[num(1)], 0, 0, pt(2))
			case "set":
				h.edit(id[num(1)], 1, num(2), pt(3))
			case "del":
				h.edit(id[num(1)], 2, num(2), nil)
			case "ins":
				h.edit(id[num(1)], 3, num(2), pt(3))
			case "rev":
				h.edit(id[num(1)], 4, 0, nil)
			case "split":
				if num(2) >= len(*h.hs[id[num(1)]].l) { // already off the track
					h.dead = true
					break
				}
				h.split(id[num(1)], num(2))
				bind(2)
			case "ring":
				if len(*h.hs[id[num(1)]].l) < 2 {
					h.dead = true
					break
				}
				h.ring(id[num(1)], d.rnd.Intn(2))
				bind(1)
			case "sub":
				var as string
				json.Unmarshal(o[4], &as)
				if num(3) > reflect.ValueOf(h.hs[id[num(1)]].value()).Len() {
					h.dead = true
					break
				}
				h.sub(id[num(1)], num(2), num(3), as)
				bind(1)
			case "poly":
				var rs []int
				json.Unmarshal(o[1], &rs)
				for k := range rs {
					rs[k] = id[rs[k]]
				}
				h.polyOf(rs, false)
				bind(1)
			case "polyfrom":
				if num(2) > len(*h.hs[id[num(1)]].p) {
					h.dead = true
					break
				}
				h.polyFromOf(id[num(1)], num(2))
				bind(1)
			case "setext", "addint":
				h.polyEditOf(id[num(1)], id[num(2)], b2i(op == "addint"))
				h.polyEditOf(id[num(1)], 0, 2)
			case "mappend":
				h.mappendOf(id[num(1)], pt(2))
			}
		}
		d.hist(h.ev)
	}
}
