package main

import (
	"math"
	"sort"

	geo "github.com/hzw456/go-geo"
)

// place maps the integer grid to coordinates, exactly: x*s + o.
type place struct{ s, ox, oy float64 }

var places = []place{
	{1, 0, 0}, {1, 0, 0}, {1, 0, 0}, {0.25, 0, 0}, {64, 0, 0}, {1, -7, -5}, {1, 1000, -2000}, {0.0625, 113, 23}, {1024, -65536, 131072}, {1. / 64, -180, 60}, {4, -20, -30}, {1. / 1024, -180, 60}, {1. / 8192, 113, 23}, {1 << 20, 0, 0}, {1 << 50, 0, 0}, {1 << 40, 1 << 52, -1 << 55}, {hugeScale, 0, 0},
}

const hugeScale = 1 << 240

func (d *driver) place() place { return places[d.rnd.Intn(len(places))] }

// tiny places lie far below the coordinate tolerance: for what knows no tolerance.
var tiny = []place{{1. / (1 << 40), 0, 0}, {tinyScale, 0, 0}}

const tinyScale = 1. / (1 << 250)

func (d *driver) anyPlace() place {
	if d.rnd.Intn(6) == 0 {
		return tiny[d.rnd.Intn(len(tiny))]
	}
	return d.place()
}

func (m place) pt(p ip) geo.Point {
	return geo.Point{X: float64(p[0])*m.s + m.ox, Y: float64(p[1])*m.s + m.oy}
}

// The points of one event often lie where points of an earlier one lay: nothing may be
// remembered about a geometry by the place its points are kept at.
var free = map[int][][]geo.Point{}
var used [][]geo.Point

var recycling bool

func storage(n int) []geo.Point {
	if !recycling {
		return make([]geo.Point, n)
	}
	var r []geo.Point
	if l := free[n]; len(l) > 0 {
		r, free[n] = l[len(l)-1], l[:len(l)-1]
	} else {
		r = make([]geo.Point, n)
	}
	used = append(used, r)
	return r
}
func (d *driver) release() {
	for _, r := range used {
		if d.rnd.Intn(4) > 0 && len(free[len(r)]) < 8 {
			free[len(r)] = append(free[len(r)], r)
		}
	}
	used = nil
}

func (m place) pts(ps []ip) []geo.Point {
	r := storage(len(ps))
	for i, p := range ps {
		r[i] = m.pt(p)
	}
	return r
}
func (m place) line(ps []ip) geo.LineString  { return geo.LineString(m.pts(ps)) }
func (m place) ring(ps iring) geo.LinearRing { return geo.LinearRing(m.pts(ps)) }
func (m place) poly(p ipoly) geo.Polygon {
	r := geo.Polygon{}
	for _, x := range p {
		r = append(r, m.ring(x))
	}
	return r
}
func (m place) seg(a, b ip) geo.LineSegment { return geo.LineSegment{Start: m.pt(a), End: m.pt(b)} }
func (m place) back(p geo.Point) []int {
	return []int{lat((p.X - m.ox) / m.s), lat((p.Y - m.oy) / m.s)}
}
func (m place) backAll(ps []geo.Point) [][]int {
	r := [][]int{}
	for _, p := range ps {
		r = append(r, m.back(p))
	}
	return r
}
func (m place) rat(p geo.Point, den int) [][]int {
	return [][]int{rat((p.X-m.ox)/m.s, den), rat((p.Y-m.oy)/m.s, den)}
}

// decoy makes a call about something else: what an earlier one returned stays what it was.
func (d *driver) decoy(f func(ps []geo.Point)) {
	if d.rnd.Intn(3) > 0 {
		return
	}
	k := 3 + d.rnd.Intn(10)
	ps := []geo.Point{}
	for i := 0; i < k; i++ {
		a := 2 * math.Pi * float64(i) / float64(k)
		ps = append(ps, geo.Point{X: -7e5 + 300*math.Cos(a), Y: 4e5 + 100*math.Sin(a)})
	}
	d.call(func() { f(append(ps, ps[0])) })
}

func (d *driver) planeEv(ev E, f func()) {
	recycling = true
	d.inflight(ev)
	ev["pn"] = d.call(f)
	d.one(ev)
	d.release()
}

func init() { suites["plane"] = planeSuite }

func planeSuite(d *driver) {
	gens := map[string]func(*driver){
		"G01": g01, "G02": g02, "G03": g03, "G04": g04, "G05": g05, "G06": g06, "G07": g07, "G08": g08, "G10": g10, "G11": g11, "V01": v01,
	}
	for d.nev < d.n {
		gens[d.prop](d)
	}
}

/*------------------------------- G01 boxes -------------------------------*/

// mono is a strictly increasing table: boxes only depend on the order of coordinates.
var mono = func() []float64 {
	v := []float64{0}
	for _, m := range []float64{5e-324, 1e-300, 1e-9, 0.1, 1, 1.5, 3, 90, 180, 12345.678, 1 << 31, 3e9, 1e15, 9007199254740993, 1e100, 1e300, math.MaxFloat64} {
		v = append(v, m, -m)
	}
	sort.Float64s(v)
	return v
}()

func monoIdx(x float64) int {
	for i, v := range mono {
		if v == x {
			return i
		}
	}
	return off
}

var smallMono = []float64{-30, -20.5, -11, -3, -2, -1, 0, 1, 2, 3.25, 7, 11, 19, 42}

func g01(d *driver) {
	tab := mono
	if d.rnd.Intn(2) == 0 {
		tab = smallMono
	}
	idx := func(x float64) int {
		for i, v := range tab {
			if v == x {
				return i
			}
		}
		return off
	}
	lo := d.rnd.Intn(len(tab))
	w := 1 + d.rnd.Intn(len(tab))
	one := func() int { return imin(len(tab)-1, lo+d.rnd.Intn(w)) }
	P := func(p ip) geo.Point { return geo.Point{X: tab[p[0]], Y: tab[p[1]]} }
	PS := func(ps []ip) []geo.Point {
		r := storage(len(ps))
		for i, p := range ps {
			r[i] = P(p)
		}
		return r
	}
	bx := func(b *geo.Box) []int { return []int{idx(b.MinX), idx(b.MinY), idx(b.MaxX), idx(b.MaxY)} }
	rbox := func() ([]int, *geo.Box) {
		a, b, c, e := one(), one(), one(), one()
		if d.rnd.Intn(4) == 0 {
			b = a
		}
		if d.rnd.Intn(4) == 0 {
			e = c
		}
		x0, x1, y0, y1 := imin(a, b), imax(a, b), imin(c, e), imax(c, e)
		return []int{x0, y0, x1, y1}, geo.NewBox(tab[x0], tab[y0], tab[x1], tab[y1])
	}
	switch d.rnd.Intn(6) {
	case 0, 1: // bounding box of every 2-D kind
		n := 1 + d.rnd.Intn(8)
		if d.rarely() {
			n = 9 + d.rnd.Intn(200)
		}
		ps := []ip{}
		for i := 0; i < n; i++ {
			ps = append(ps, ip{one(), one()})
		}
		kind := d.rnd.Intn(6)
		if kind == 0 {
			ps = ps[:1]
		}
		var parts [][]ip // one to three or many of them
		for rest, k := ps, []int{len(ps), len(ps), 3, 8}[d.rnd.Intn(4)]; len(rest) > 0; {
			cut := 1 + d.rnd.Intn(imin(k, len(rest)))
			parts, rest = append(parts, rest[:cut]), rest[cut:]
		}
		var g geo.Geometry
		switch kind {
		case 0:
			g = P(ps[0])
		case 1:
			g = geo.MultiPoint(PS(ps))
		case 2:
			g = geo.LineString(PS(ps))
		case 3:
			ml := geo.MultiLineString{}
			for _, p := range parts {
				if d.rnd.Intn(8) == 0 { // a line without points has no extent
					ml = append(ml, []geo.LineString{nil, {}}[d.rnd.Intn(2)])
				}
				ml = append(ml, PS(p))
			}
			g = ml
		case 4:
			g = geo.Polygon{geo.LinearRing(append(PS(ps), P(ps[0])))}
		case 5:
			mp := geo.MultiPolygon{}
			for _, p := range parts {
				if d.rnd.Intn(8) == 0 {
					mp = append(mp, []geo.Polygon{nil, {}, {nil}, {{}}}[d.rnd.Intn(4)])
				}
				mp = append(mp, geo.Polygon{geo.LinearRing(append(PS(p), P(p[0])))})
			}
			g = mp
		}
		ev := E{"op": "bbox", "kind": kind, "pts": ps, "box": []int{off, off, off, off}}
		d.planeEv(ev, func() {
			b := geo.BoundingBox(g)
			d.decoy(func(o []geo.Point) {
				geo.BoundingBox(geo.MultiPoint(o))
				geo.BoundingBox(geo.Polygon{geo.LinearRing(o)})
				geo.BoundingBox(o[0])
			})
			ev["box"] = bx(b)
		})
	case 2, 3: // pairs of boxes
		ia, a := rbox()
		ib, b := rbox()
		p := ip{one(), one()}
		if d.rnd.Intn(2) == 0 {
			p = ip{ia[d.rnd.Intn(2)*2], ia[1+d.rnd.Intn(2)*2]}
		}
		ev := E{"op": "boxop", "a": ia, "b": ib, "p": p, "u": []int{0, 0, 0, 0}, "after": [][]int{}, "iab": 0, "iba": 0, "cab": 0, "pin": 0}
		d.planeEv(ev, func() {
			u := a.Union(b)
			d.decoy(func(o []geo.Point) { geo.NewBox(o[1].X, o[1].Y, o[0].X, o[0].Y).Union(geo.NewRectBox(o[0], 9, 9)) })
			ev["u"] = bx(u)
			ev["after"] = [][]int{bx(a), bx(b)}
			ev["iab"] = b2i(a.Intersect(b))
			ev["iba"] = b2i(b.Intersect(a))
			ev["cab"] = b2i(a.Contain(b))
			ev["pin"] = b2i(geo.IsPointInBox(a, P(p)))
		})
	case 4: // union of many
		n := 1 + d.rnd.Intn(6)
		if d.rarely() {
			n += d.rnd.Intn(70)
		}
		is := [][]int{}
		bs := []*geo.Box{}
		for i := 0; i < n; i++ {
			ix, b := rbox()
			is, bs = append(is, ix), append(bs, b)
		}
		ev := E{"op": "boxunion", "bs": is, "after": [][]int{}, "u": []int{0, 0, 0, 0}}
		d.planeEv(ev, func() {
			u := geo.BoxUnion(bs...)
			d.decoy(func(o []geo.Point) { geo.BoxUnion(geo.NewRectBox(o[1], 2, 2), geo.NewRectBox(o[0], 9, 9)) })
			ev["u"] = bx(u)
			after := [][]int{}
			for _, b := range bs {
				after = append(after, bx(b))
			}
			ev["after"] = after
		})
	case 5: // box to geometry, area, box around a point
		m := d.place()
		p, q := d.pt(12), d.pt(12)
		if d.rnd.Intn(3) == 0 {
			q[0] = p[0]
		}
		if d.rnd.Intn(3) == 0 {
			q[1] = p[1]
		}
		x0, x1, y0, y1 := imin(p[0], q[0]), imax(p[0], q[0]), imin(p[1], q[1]), imax(p[1], q[1])
		lo, hi := m.pt(ip{x0, y0}), m.pt(ip{x1, y1})
		b := geo.NewBox(lo.X, lo.Y, hi.X, hi.Y)
		lx, ly := d.rnd.Intn(6), d.rnd.Intn(6)
		ev := E{"op": "boxgeo", "b": []int{x0, y0, x1, y1}, "kind": "", "parts": 0, "pts": [][]int{}, "size": off, "p": p, "lx": lx, "ly": ly, "rect": []int{off, off, off, off}}
		d.planeEv(ev, func() {
			g := geo.BoxToGeo(*b)
			ev["kind"] = string(g.Type())
			switch g := g.(type) {
			case geo.Point:
				ev["pts"], ev["parts"] = m.backAll([]geo.Point{g}), 1
			case geo.LineString:
				ev["pts"], ev["parts"] = m.backAll(g), 1
			case geo.Polygon:
				ev["pts"], ev["parts"] = m.backAll(g[0]), len(g)
			}
			ev["size"] = lat(b.Size() / m.s / m.s)
			r := geo.NewRectBox(m.pt(p), float64(lx)*m.s, float64(ly)*m.s)
			l, h := m.back(geo.Point{X: r.MinX, Y: r.MinY}), m.back(geo.Point{X: r.MaxX, Y: r.MaxY})
			ev["rect"] = []int{l[0], l[1], h[0], h[1]}
		})
	}
}

/*--------------------------- G02 point in polygon ---------------------------*/

func (d *driver) exhaustRing(k int) iring {
	// the k-th closed triangle or quadrilateral on a small grid
	g := 4
	n := 3 + k%2
	k /= 2
	pts := []ip{}
	for i := 0; i < n; i++ {
		pts = append(pts, ip{k % g, (k / g) % g})
		k /= g * g
	}
	return iclose(pts)
}

func g02(d *driver) {
	m := d.place()
	g := 3 + d.rnd.Intn(10)
	var poly ipoly
	if d.rnd.Intn(3) == 0 {
		g = 3
		var r iring
		for {
			r = d.exhaustRing(d.rnd.Intn(2 * 65536))
			if isimple(r) && iarea2(r) != 0 {
				break
			}
		}
		poly = ipoly{r}
	} else if d.rnd.Intn(2) == 0 {
		g = 7 + d.rnd.Intn(6)
		poly = d.simplePoly(g, 1+d.rnd.Intn(3))
	} else {
		poly = d.simplePoly(g, 0)
	}
	if d.rnd.Intn(8) == 0 {
		g = 40
		poly = d.simplePoly(g, 0)
	}
	g = imax(g, poly.extent())
	qs := []ip{}
	for x := -1; x <= g+1; x++ {
		for y := -1; y <= g+1; y++ {
			qs = append(qs, ip{x, y})
		}
	}
	d.rnd.Shuffle(len(qs), func(i, j int) { qs[i], qs[j] = qs[j], qs[i] })
	if len(qs) > 24 {
		qs = qs[:24]
	}
	for _, r := range poly { // level with vertices and on edges
		v, w := r[d.rnd.Intn(len(r)-1)], r[d.rnd.Intn(len(r)-1)]
		qs = append(qs, v, ip{w[0] + d.rnd.Intn(3) - 1, v[1]}, ip{-1, v[1]}, ip{(v[0] + w[0]) / 2, (v[1] + w[1]) / 2})
	}
	d.evPip(m, poly, qs)
}

func (d *driver) evPip(m place, poly ipoly, qs []ip) {
	gp := m.poly(poly)
	rs := []int{}
	ev := E{"op": "pip", "poly": poly, "qs": qs, "rs": rs}
	d.planeEv(ev, func() {
		for _, q := range qs {
			rs = append(rs, int(geo.IsPointInPolygon(m.pt(q), gp)))
		}
		ev["rs"] = rs
	})
}

/*------------------------------ G03 segments ------------------------------*/

func g03(d *driver) {
	m := d.anyPlace()
	g := []int{2, 3, 4, 6, 12, 40}[d.rnd.Intn(6)]
	if d.rnd.Intn(2) == 0 {
		n := 12
		type q struct {
			A, B, C, D ip
		}
		ss := [][]ip{}
		for len(ss) < n {
			a, b, c, e := d.pt(g), d.pt(g), d.pt(g), d.pt(g)
			switch d.rnd.Intn(5) {
			case 0: // collinear
				k := d.rnd.Intn(4) - 1
				c = ip{a[0] + k*(b[0]-a[0]), a[1] + k*(b[1]-a[1])}
				k = d.rnd.Intn(4) - 1
				e = ip{a[0] + k*(b[0]-a[0]), a[1] + k*(b[1]-a[1])}
			case 1: // parallel
				c = ip{a[0] + d.rnd.Intn(3) - 1, a[1] + d.rnd.Intn(3) - 1}
				e = ip{c[0] + b[0] - a[0], c[1] + b[1] - a[1]}
			}
			if (a == b || c == e) && d.rnd.Intn(2) == 0 { // a segment of length zero is one point
				continue
			}
			if d.rnd.Intn(12) == 0 {
				b = a
			}
			if d.rnd.Intn(12) == 0 {
				e = c
			}
			ss = append(ss, []ip{a, b, c, e})
		}
		d.evSegs(m, ss)
		return
	}
	d.g03lines(m, g)
}

func (d *driver) evSegs(m place, ss [][]ip) {
	rs := [][]int{}
	ev := E{"op": "segrel", "ss": ss, "rs": rs}
	d.planeEv(ev, func() {
		for _, s := range ss {
			s1, s2 := m.seg(s[0], s[1]), m.seg(s[2], s[3])
			r1, r2 := m.seg(s[1], s[0]), m.seg(s[3], s[2])
			rs = append(rs, []int{int(geo.SegmentRelation(s1, s2)), int(geo.SegmentRelation(s2, s1)), int(geo.SegmentRelation(r1, s2)), int(geo.SegmentRelation(s1, r2)),
				b2i(geo.IsPointOnSegment(s1.Start, s1.End, s2.Start)), b2i(geo.IsPointOnSegment(s1.End, s1.Start, s2.Start))})
		}
		ev["rs"] = rs
	})
}

func (d *driver) g03lines(m place, g int) {
	l, k := d.distinctLine(g, 2+d.rnd.Intn(4)), d.distinctLine(g, 2+d.rnd.Intn(4))
	if d.rnd.Intn(6) == 0 { // a point twice in a row
		j := d.rnd.Intn(len(l))
		l = append(l[:j+1], append([]ip{l[j]}, l[j+1:]...)...)
	}
	if d.rarely() {
		g = []int{12, 40}[d.rnd.Intn(2)]
		l, k = d.walk(g, 8+d.rnd.Intn(50)), d.walk(g, 8+d.rnd.Intn(50))
	}
	qs := d.ptsOf(g, 6)
	for i := 0; i < 6; i++ { // points on or near the line through two neighbours
		j := d.rnd.Intn(len(l) - 1)
		a, b := l[j], l[j+1]
		t := d.rnd.Intn(5) - 1
		qs = append(qs, ip{a[0] + t*(b[0]-a[0])/2, a[1] + t*(b[1]-a[1])/2})
	}
	qs = append(qs, l[0], l[len(l)-1])
	ons := []int{}
	ev := E{"op": "linerel", "l": l, "k": k, "qs": qs, "r": []int{0, 0, 0, 0}, "ons": ons}
	d.planeEv(ev, func() {
		gl, gk := m.line(l), m.line(k)
		rl := append(geo.LineString{}, gl...)
		rl.Reverse()
		rk := append(geo.LineString{}, gk...)
		rk.Reverse()
		ev["r"] = []int{int(geo.LineRelation(gl, gk)), int(geo.LineRelation(gk, gl)), int(geo.LineRelation(rl, gk)), int(geo.LineRelation(gl, rk))}
		for _, q := range qs {
			ons = append(ons, b2i(geo.IsPointOnLine(m.pt(q), gl)))
		}
		ev["ons"] = ons
	})
}

// distinctLine has no two equal neighbours.
func (d *driver) distinctLine(g, n int) []ip {
	r := []ip{d.pt(g)}
	for len(r) < n {
		p := d.pt(g)
		if p != r[len(r)-1] {
			r = append(r, p)
		}
	}
	return r
}

/*--------------------------- G04 self-intersection ---------------------------*/

func g04(d *driver) {
	if d.rnd.Intn(2) == 0 {
		m := d.anyPlace()
		g := 2 + d.rnd.Intn(6)
		var r iring
		if d.rnd.Intn(3) == 0 {
			r = d.simpleRing(imax(3, g))
		} else {
			r = d.scramble(iclose(d.distinctLine(g, 3+d.rnd.Intn(5))))
		}
		if d.rarely() {
			r = d.bigRing()
			if i := 1 + d.rnd.Intn(len(r)-3); d.rnd.Intn(2) == 0 {
				r[i], r[i+1] = r[i+1], r[i]
			} else if d.rnd.Intn(2) == 0 {
				r[i] = d.pt(8)
			}
		}
		for i := 0; i+1 < len(r); i++ {
			if r[i] == r[i+1] {
				return
			}
		}
		d.evSelf(m, r)
		return
	}
	d.g04verify()
}

func (d *driver) evSelf(m place, r iring) {
	rs := []int{}
	ev := E{"op": "selfx", "ring": r, "rs": rs}
	d.planeEv(ev, func() {
		for k := 0; k < len(r)-1; k++ {
			rs = append(rs, b2i(m.poly(ipoly{rot(r, k)}).SelfIntersect()), b2i(m.poly(ipoly{rev(rot(r, k))}).SelfIntersect()))
		}
		ev["rs"] = rs
	})
}

func (d *driver) g04verify() {
	// validity, in units of 2^-u degree
	u := 4
	unit := 1. / 16
	var poly ipoly
	switch d.rnd.Intn(6) {
	case 0: // tiny areas
		u, unit = 17, 1./131072
		poly = ipoly{d.scramble(iclose(d.distinctLine(3, 3+d.rnd.Intn(2))))}
	case 1: // few points
		n := d.rnd.Intn(3) + 1
		poly = ipoly{iclose(d.distinctLine(5, n))}
	case 2, 3: // around the limits of longitude and latitude
		cx := []int{2880, -2880, 1440, -1440, 0}[d.rnd.Intn(5)]
		cy := []int{2880, -2880, 1440, -1440, 0}[d.rnd.Intn(5)]
		w := 2 + d.rnd.Intn(4)
		r := d.simpleRing(w)
		if d.rnd.Intn(6) == 0 {
			r = d.bigRing()
			w = ipoly{r}.extent()
		}
		ox, oy := cx-d.rnd.Intn(w+2), cy-d.rnd.Intn(w+2)
		for i := range r {
			r[i] = ip{r[i][0] + ox, r[i][1] + oy}
		}
		poly = ipoly{r}
	case 4:
		poly = d.simplePoly(8, 2)
	case 5:
		poly = ipoly{d.scramble(iclose(d.distinctLine(6, 3+d.rnd.Intn(5))))}
	}
	for i := 0; i+1 < len(poly[0]); i++ {
		if len(poly[0]) > 3 && poly[0][i] == poly[0][i+1] {
			return
		}
	}
	m := place{unit, 0, 0}
	ev := E{"op": "verify", "poly": poly, "u": u, "ok": 0}
	d.planeEv(ev, func() {
		p := m.poly(poly)
		ev["ok"] = b2i(p.Verify() == nil)
	})
}

/*------------------------------- G05 measures -------------------------------*/

// far places: small shapes a long way from the origin, in degrees and in metres.
var far = []place{{1. / (1 << 20), 116 + 5./16, 39 + 1./4}, {1. / (1 << 17), -179 - 3./8, -65}, {1. / (1 << 13), 113, 23 + 1./64}, {1. / (1 << 10), 500000.25, 4649776.5}, {1. / 8, -20037508, 9999999}, {1. / 16, 1 << 30, -1 << 31}, {1. / (1 << 40), 0, 0}, {1. / (1 << 200), 0, 0}}

// farShape judges area and centroid in thousandths of the grid.
func farShape(d *driver) {
	m := far[d.rnd.Intn(len(far))]
	poly := d.simplePoly([]int{4, 6, 8}[d.rnd.Intn(3)], d.rnd.Intn(2))
	ev := E{"op": "far", "poly": poly, "a2": off, "cen": [][]int{}, "line": []int{off, off}}
	d.planeEv(ev, func() {
		q := func(p geo.Point) []int { return []int{qz((p.X-m.ox)/m.s, 1000), qz((p.Y-m.oy)/m.s, 1000)} }
		g := m.poly(poly)
		ev["a2"] = qz(2*geo.GetArea(g)/m.s/m.s, 1000)
		ev["cen"] = [][]int{q(geo.Centroid(g))}
		ev["line"] = q(geo.LinearCentroid(m.ring(poly[0])))
	})
}

func g05(d *driver) {
	if d.rnd.Intn(6) == 0 {
		farShape(d)
		return
	}
	m := append(fine[:3:3], []place{{1, 0, 0}, {1, 0, 0}, {0.5, -3, 2}, {16, 0, 0}, {1, -300, 100}, {0.125, 113, 23}}...)[d.rnd.Intn(9)]
	switch d.rnd.Intn(5) {
	case 0, 1, 2:
		poly := d.simplePoly([]int{4, 6, 8, 12}[d.rnd.Intn(4)], d.rnd.Intn(3))
		if d.rnd.Intn(3) == 0 { // any closed shell with area
			for {
				poly = ipoly{d.scramble(iclose(d.ptsOf(10, 3+d.rnd.Intn(6))))}
				if iarea2(poly[0]) != 0 || d.rnd.Intn(6) == 0 {
					break
				}
			}
		}
		switch d.rnd.Intn(12) {
		case 0: // a hole without area: a slit or a single place
			p, q := poly[0][0], poly[0][d.rnd.Intn(len(poly[0]))]
			poly = append(poly, [][]ip{{p, q, p}, {p, p, p, p}, {p, q, q, p}}[d.rnd.Intn(3)])
			if k := len(poly) - 1; k > 1 && d.rnd.Intn(2) == 0 {
				poly[1], poly[k] = poly[k], poly[1]
			}
		case 1: // a shell there and back again
			l := d.ptsOf(8, 2+d.rnd.Intn(3))
			poly = ipoly{d.scramble(append(append(iring{}, l...), rev(l)[1:]...))}
		}
		d.evPoly(m, poly)
	case 3:
		d.g05multi(m)
	case 4:
		d.g05len(m)
	}
}

func (d *driver) evPoly(m place, poly ipoly) {
	ev := E{"op": "poly", "poly": poly, "a2": off, "a2b": off, "ccw": 0, "cen": [][]int{{0, 0}, {0, 0}}, "lines": [][][]int{}, "pt": []int{off, off}}
	d.planeEv(ev, func() {
		g := m.poly(poly)
		ev["a2"] = lat(2 * geo.GetArea(g) / m.s / m.s)
		ev["a2b"] = lat(2 * geo.GetArea(geo.MultiPolygon{g}) / m.s / m.s)
		ev["ccw"] = b2i(g.IsCCW())
		ev["cen"] = m.rat(geo.Centroid(g), 3000)
		// the shell as a line, closed and open, and as a ring
		shell := m.line(poly[0])
		ls := [][][]int{}
		for _, c := range []geo.Point{geo.Centroid(shell), geo.Centroid(shell[:len(shell)-1]), geo.LinearCentroid(m.ring(poly[0]))} {
			ls = append(ls, m.rat(c, 3000))
		}
		ev["lines"] = ls
		ev["pt"] = m.back(geo.Centroid(m.pt(poly[0][1])))
	})
}

func (d *driver) g05multi(m place) {
	n := d.rnd.Intn(4)
	np := 1 + d.rnd.Intn(9)
	if d.rarely() {
		n, np = 4+d.rnd.Intn(12), 10+d.rnd.Intn(90)
	}
	polys := []ipoly{}
	mp := geo.MultiPolygon{}
	for i := 0; i < n; i++ {
		p := d.simplePoly(8, d.rnd.Intn(3))
		polys = append(polys, p)
		mp = append(mp, m.poly(p))
	}
	pts := d.ptsOf(12, np)
	ev := E{"op": "multi", "polys": polys, "a2": off, "pts": pts, "cen": [][]int{{0, 0}, {0, 0}}}
	d.planeEv(ev, func() {
		ev["a2"] = lat(2 * geo.GetArea(mp) / m.s / m.s)
		ev["cen"] = m.rat(geo.Centroid(geo.MultiPoint(m.pts(pts))), 100)
	})
}

func (d *driver) g05len(m place) {
	l := d.ptsOf(12, 1+d.rnd.Intn(10))
	if d.rarely() {
		l = d.ptsOf(12, 11+d.rnd.Intn(200))
	}
	ev := E{"op": "len", "l": l, "len": off, "a2": off, "b": []int{0, 0, 0, 0}}
	p, q := d.pt(12), d.pt(12)
	if p[0] == q[0] || p[1] == q[1] {
		q = ip{p[0] + 1, p[1] + 3}
	}
	b := []int{imin(p[0], q[0]), imin(p[1], q[1]), imax(p[0], q[0]), imax(p[1], q[1])}
	ev["b"] = b
	d.planeEv(ev, func() {
		ev["len"] = qz(m.line(l).Length()/m.s, 2048)
		lo, hi := m.pt(ip{b[0], b[1]}), m.pt(ip{b[2], b[3]})
		ev["a2"] = lat(2 * geo.GetArea(geo.BoxToGeo(*geo.NewBox(lo.X, lo.Y, hi.X, hi.Y))) / m.s / m.s)
	})
}

/*---------------------------------- G06 hull ----------------------------------*/

func collinear(ps []ip) bool {
	for i := range ps {
		for j := range ps {
			if ps[0] != ps[i] && iorient(ps[0], ps[i], ps[j]) != 0 {
				return false
			}
		}
	}
	return true
}

func (d *driver) cloud() []ip {
	for {
		var ps []ip
		switch d.rnd.Intn(7) {
		case 6: // most of a hull's corners in the middle of its box, or all over its outline
			a, b, c := d.pt(40), d.pt(40), d.pt(40)
			w := d.rnd.Intn(12)
			for i := 10 + d.rnd.Intn(150); i > 0; i-- {
				t, u := d.rnd.Intn(41), d.rnd.Intn(41)
				switch w % 4 {
				case 3: // a lens along a diagonal
					v := t * (40 - t) / []int{100, 50, 20}[w/4] // at most 4, 8, 20
					ps = append(ps, ip{t + v*(u%3-1)/(1+u%2), t})
				case 0: // a band
					ps = append(ps, ip{a[0] + (b[0]-a[0])*t/40 + u%3, a[1] + (b[1]-a[1])*t/40 + u/3%3})
				case 1: // a triangle
					if t+u > 40 {
						t, u = 40-t, 40-u
					}
					ps = append(ps, ip{a[0] + ((b[0]-a[0])*t+(c[0]-a[0])*u)/40, a[1] + ((b[1]-a[1])*t+(c[1]-a[1])*u)/40})
				case 2: // a disk
					x, y := t-20, u-20
					if x*x+y*y <= 400 {
						ps = append(ps, ip{t, u})
					}
				}
			}
		case 0:
			ps = d.ptsOf(2, 3+d.rnd.Intn(7))
		case 1:
			ps = d.ptsOf(4, 3+d.rnd.Intn(20))
		case 2:
			ps = d.ptsOf(12, 5+d.rnd.Intn(40))
		case 3:
			ps = d.ptsOf(40, 13+d.rnd.Intn(100))
			if d.rarely() {
				ps = d.ptsOf(20, 100+d.rnd.Intn(500))
			}
		case 4: // many on the lines of a box, with repeats
			for i, n := 0, 4+d.rnd.Intn(20); i < n; i++ {
				p := d.pt(6)
				p[d.rnd.Intn(2)] = 6 * d.rnd.Intn(2)
				ps = append(ps, p)
				if d.rnd.Intn(3) == 0 {
					ps = append(ps, ps[d.rnd.Intn(len(ps))])
				}
			}
		case 5: // nearly collinear
			for i, n := 0, 3+d.rnd.Intn(12); i < n; i++ {
				t := d.rnd.Intn(12)
				ps = append(ps, ip{t, t / 2})
			}
			ps = append(ps, d.pt(12))
		}
		switch d.rnd.Intn(4) {
		case 0:
			sort.Slice(ps, func(i, j int) bool { return ps[i][0] < ps[j][0] || ps[i][0] == ps[j][0] && ps[i][1] < ps[j][1] })
		case 1:
			sort.Slice(ps, func(i, j int) bool { return ps[i][1] > ps[j][1] })
		}
		if len(ps) >= 3 && !collinear(ps) {
			return ps
		}
	}
}

// fine places: the grid is far finer than a degree, but coarser than the coordinate tolerance.
var fine = []place{{1. / (1 << 17), 0, 0}, {1. / (1 << 14), 113, 23}, {1. / (1 << 10), -180, 60}, {1 << 20, 0, 0}, {1 << 24, -1 << 30, 1 << 31}}

func g06(d *driver) {
	m := d.place()
	if d.rnd.Intn(2) == 0 {
		m = fine[d.rnd.Intn(len(fine))]
	}
	d.evHull(m, d.cloud())
}

func (d *driver) evHull(m place, ps []ip) {
	ev := E{"op": "hull", "pts": ps, "h": [][]int{}, "rings": 0}
	d.planeEv(ev, func() {
		h := geo.ConvexHull(m.pts(ps)...)
		d.decoy(func(o []geo.Point) { geo.ConvexHull(o...) })
		ev["rings"] = len(h)
		ev["h"] = m.backAll(h.GetExteriorRing())
	})
}

/*-------------------------------- G07 distances --------------------------------*/

const planar = geo.SRID_WGS84_PSEUDO_MERCATOR

var exactPlaces = []place{{1, 0, 0}, {1, 0, 0}, {0.5, -3, 2}, {16, 0, 0}, {1, -300, 100}, {1. / 8192, 113, 23}, {1 << 20, 0, 0}, {1 << 34, 0, 0}, {1 << 32, -1 << 38, 1 << 36}}

func g07(d *driver) {
	m := exactPlaces[d.rnd.Intn(len(exactPlaces))]
	if d.rnd.Intn(6) == 0 {
		m = tiny[d.rnd.Intn(len(tiny))]
	}
	g := []int{3, 5, 12}[d.rnd.Intn(3)]
	r2 := func(x float64) []int { return rat(x*x/m.s/m.s, 1000) }
	switch d.rnd.Intn(5) {
	case 0, 1:
		p, a, b := d.pt(g), d.pt(g), d.pt(g)
		if d.rnd.Intn(6) == 0 {
			b = a
		}
		d.evP2seg(m, p, a, b)
	case 2:
		if m.s < 1e-9 { // inside knows the tolerance
			m = exactPlaces[0]
		}
		d.g07poly(m, r2)
	case 3:
		d.g07hit(m, g, r2)
	case 4:
		d.g07haus(m, g)
	}
}

func (d *driver) evP2seg(m place, p, a, b ip) {
	r2 := func(x float64) []int { return rat(x*x/m.s/m.s, 1000) }
	ev := E{"op": "p2seg", "p": p, "a": a, "b": b, "d2": []int{0, 0}, "foot": [][]int{{0, 0}, {0, 0}}, "ed2": []int{0, 0}, "ar": 0, "ld2": []int{0, 0}, "lfoot": [][]int{{0, 0}, {0, 0}}, "lu": []int{0, 0}}
	eb := m.pt(b)
	if ea := m.pt(a); a == b { // nearly no length: even its square is lost
		if step := []float64{5e-324, -1e-310, 1e-200, -1e-163}[d.rnd.Intn(4)]; ea.X == 0 {
			eb.X = step
		} else if ea.Y == 0 {
			eb.Y = step
		}
	}
	d.planeEv(ev, func() {
		x, f := geo.PointToSegmentDistance(m.pt(p), m.pt(a), eb, planar)
		ev["d2"], ev["foot"] = r2(x), m.rat(f, 1000)
		ev["ed2"], ev["ar"] = r2(geo.EuclideanDistance(m.pt(p), m.pt(a))), lat(geo.Area2(m.pt(a), m.pt(b), m.pt(p))/m.s/m.s)
		if a != b {
			x, f, u := geo.PointToLineDistance(m.pt(p), m.pt(a), m.pt(b), planar)
			ev["ld2"], ev["lfoot"], ev["lu"] = r2(x), m.rat(f, 1000), rat(u, 1000)
		}
	})
}

func (d *driver) g07poly(m place, r2 func(float64) []int) {
	poly := d.simplePoly([]int{4, 8, 12}[d.rnd.Intn(3)], d.rnd.Intn(3))
	qs := d.ptsOf(imax(13, poly.extent()+1), 8)
	for _, r := range poly[1:] {
		v := r[d.rnd.Intn(len(r)-1)]
		qs = append(qs, ip{v[0] + 1, v[1]}, ip{v[0], v[1] + 1}, ip{v[0] - 1, v[1]}, ip{v[0], v[1] - 1}, v)
	}
	ds := [][]int{}
	ev := E{"op": "ppoly", "poly": poly, "qs": qs, "d2s": ds}
	d.planeEv(ev, func() {
		for _, q := range qs {
			ds = append(ds, r2(geo.PointPolygonDistance(m.pt(q), m.poly(poly), planar)))
		}
		ev["d2s"] = ds
	})
}

func (d *driver) g07hit(m place, g int, r2 func(float64) []int) {
	l := d.ptsOf(g, 2+d.rnd.Intn(6))
	p := d.pt(g)
	if d.rarely() {
		l, p = d.walk(30, 8+d.rnd.Intn(120)), d.pt(30)
	}
	ev := E{"op": "hit", "p": p, "l": l, "d2": []int{0, 0}, "foot": [][]int{{0, 0}, {0, 0}}, "i": -1}
	d.planeEv(ev, func() {
		f, i, x := geo.PointHitLineString(m.pt(p), m.line(l), planar)
		ev["d2"], ev["foot"], ev["i"] = r2(x), m.rat(f, 1000), i+1
	})
}

func (d *driver) g07haus(m place, g int) {
	l, k := d.ptsOf(g, 1+d.rnd.Intn(6)), d.ptsOf(g, 1+d.rnd.Intn(6))
	if d.rnd.Intn(8) == 0 { // without length
		k = []ip{k[0], k[0], k[0]}[:1+d.rnd.Intn(3)]
	}
	a, b := d.pt(g), d.pt(g)
	za, zb := d.rnd.Intn(9), d.rnd.Intn(9)
	if d.rarely() {
		l, k = d.walk(30, 2+d.rnd.Intn(70)), d.walk(30, 2+d.rnd.Intn(70))
	}
	ev := E{"op": "haus", "l": l, "k": k, "d2": off, "d2b": off, "a": a, "b": b, "za": za, "zb": zb, "e2": []int{off, off, off}, "z2": off}
	i2 := func(x float64) int { return lat(x * x / m.s / m.s) }
	d.planeEv(ev, func() {
		ev["d2"] = i2(geo.HausdorffDistance(m.line(l), m.line(k), planar))
		ev["d2b"] = i2(geo.HausdorffDistance(m.line(k), m.line(l), planar))
		pa, pb := m.pt(a), m.pt(b)
		ev["e2"] = []int{i2(geo.EuclideanDis(pa, pb)), i2(pb.Distance(pa)), i2(geo.PointDistance(pa, pb, planar))}
		ev["z2"] = i2(geo.EuclideanDisZ(geo.PointZ{X: pa.X, Y: pa.Y, Z: float64(za) * m.s}, geo.PointZ{X: pb.X, Y: pb.Y, Z: float64(zb) * m.s}))
	})
}

/*------------------------------ G08 simplification ------------------------------*/

func g08(d *driver) {
	m := append(fine[:4:4], []place{{1, 0, 0}, {1, 0, 0}, {0.5, -3, 2}, {16, 0, 0}, {1, -300, 100}}...)[d.rnd.Intn(9)]
	var l []ip
	switch d.rnd.Intn(5) {
	case 0:
		l = d.ptsOf(3, 1+d.rnd.Intn(7))
	case 1:
		l = d.ptsOf(12, 2+d.rnd.Intn(14))
	case 2: // a walk
		p := ip{6, 6}
		for i, n := 0, 4+d.rnd.Intn(20); i < n; i++ {
			l = append(l, p)
			p = ip{imin(12, imax(0, p[0]+d.rnd.Intn(3)-1)), imin(12, imax(0, p[1]+d.rnd.Intn(3)-1))}
		}
	case 3: // a graph with long flat pieces
		y := 5
		for x := 0; x <= 12; x++ {
			l = append(l, ip{x, y})
			if d.rnd.Intn(3) == 0 {
				y = imin(12, imax(0, y+d.rnd.Intn(5)-2))
			}
		}
	case 4: // closed
		l = []ip(d.simpleRing(8))
	}
	if d.rarely() {
		l = d.walk(12, 20+d.rnd.Intn(130))
	}
	// squared threshold tp/1009
	tp := []int{1, 100, 505, 1010, 2500, 5000, 9090, 20000, 40000}[d.rnd.Intn(9)]
	tq := 1009
	th := math.Sqrt(float64(tp)/1009) * m.s
	if d.rnd.Intn(2) == 0 { // a threshold some points may be exactly at
		t := d.rnd.Intn(8)
		tp, tq, th = t*t, 4, float64(t)/2*m.s
	}
	d.evDP(m, l, tp, tq, th)
}

func (d *driver) evDP(m place, l []ip, tp, tq int, th float64) {
	ev := E{"op": "dp", "l": l, "tp": tp, "tq": tq, "r": [][]int{}}
	d.planeEv(ev, func() {
		r := geo.DouglasPeuckerSimplify(m.line(l), th, planar)
		d.decoy(func(o []geo.Point) { geo.DouglasPeuckerSimplify(o, 1, planar) })
		ev["r"] = m.backAll(r)
	})
}

/*------------------------------ G10 least rectangle ------------------------------*/

var unitPlaces = []place{{1, 0, 0}, {1, 0, 0}, {1, -6, -4}, {1, 100, 200}, {1, -500, 20}}

func g10(d *driver) {
	m := unitPlaces[d.rnd.Intn(len(unitPlaces))]
	g := []int{3, 6, 12}[d.rnd.Intn(3)]
	var ps []ip
	for {
		ps = d.ptsOf(g, 3+d.rnd.Intn(12))
		if d.rarely() {
			ps = d.ptsOf(g, 15+d.rnd.Intn(25))
			if d.rarely() {
				ps = d.ptsOf(g, 100+d.rnd.Intn(60))
			}
		}
		if !collinear(ps) {
			break
		}
	}
	d.evMbr(m, d.rnd.Intn(5), ps)
}

func (d *driver) evMbr(m place, kind int, ps []ip) {
	var gm geo.Geometry
	cut := 1 + d.rnd.Intn(len(ps)-1)
	switch kind {
	case 0:
		gm = geo.MultiPoint(m.pts(ps))
	case 1:
		gm = m.line(ps)
	case 2:
		gm = geo.MultiLineString{m.line(ps[:cut]), m.line(ps[cut:])}
	case 3:
		gm = m.poly(ipoly{iclose(ps)})
	case 4:
		gm = geo.MultiPolygon{m.poly(ipoly{iclose(ps[:cut])}), m.poly(ipoly{iclose(ps[cut:])})}
	}
	ev := E{"op": "mbr", "kind": kind, "pts": ps, "q": [][]int{}, "rings": 0}
	d.planeEv(ev, func() {
		r := geo.Mbr(gm)
		d.decoy(func(o []geo.Point) { geo.Mbr(geo.LineString(o)) })
		ev["rings"] = len(r)
		q := [][]int{}
		for _, p := range r.GetExteriorRing() {
			q = append(q, []int{qz(p.X-m.ox, 1000), qz(p.Y-m.oy, 1000)})
		}
		ev["q"] = q
	})
}

/*--------------------------- G11 relations to a polygon ---------------------------*/

func g11(d *driver) {
	m := d.place()
	g := 4 + d.rnd.Intn(9)
	poly := d.simplePoly(g, d.rnd.Intn(3))
	g = imax(g, poly.extent())
	some := func() ip { // a point with a leaning towards the polygon's own coordinates
		r := poly[d.rnd.Intn(len(poly))]
		switch d.rnd.Intn(4) {
		case 0:
			return r[d.rnd.Intn(len(r))]
		case 1:
			v, w := r[d.rnd.Intn(len(r))], r[d.rnd.Intn(len(r))]
			return ip{v[0], w[1]}
		}
		p := d.pt(g + 2)
		return ip{p[0] - 1, p[1] - 1}
	}
	switch d.rnd.Intn(3) {
	case 0:
		ss := [][]ip{}
		for len(ss) < 10 {
			a, b := some(), some()
			if d.rnd.Intn(3) == 0 { // short, likely inside or outside
				b = ip{a[0] + d.rnd.Intn(3) - 1, a[1] + d.rnd.Intn(3) - 1}
			}
			if a != b || d.rnd.Intn(3) == 0 {
				ss = append(ss, []ip{a, b})
			}
		}
		d.evSegPoly(m, poly, ss)
	case 1:
		d.g11line(m, poly, some)
	case 2:
		d.g11ring(m, poly, g)
	}
}

func (d *driver) evSegPoly(m place, poly ipoly, ss [][]ip) {
	gp := m.poly(poly)
	rs := []int{}
	ev := E{"op": "segpoly", "poly": poly, "ss": ss, "rs": rs}
	d.planeEv(ev, func() {
		for _, s := range ss {
			rs = append(rs, int(geo.SegPolyRelation(m.seg(s[0], s[1]), gp)))
		}
		ev["rs"] = rs
	})
}

func (d *driver) g11line(m place, poly ipoly, some func() ip) {
	gp := m.poly(poly)
	l := []ip{some()}
	n := 2 + d.rnd.Intn(5)
	if d.rarely() {
		n = 8 + d.rnd.Intn(40)*(1+d.rnd.Intn(3))
	}
	for len(l) < n {
		q := some()
		if d.rnd.Intn(2) == 0 {
			p := l[len(l)-1]
			q = ip{p[0] + d.rnd.Intn(3) - 1, p[1] + d.rnd.Intn(3) - 1}
		}
		if q != l[len(l)-1] {
			l = append(l, q)
		}
	}
	ev := E{"op": "linepoly", "poly": poly, "l": l, "r": -1}
	d.planeEv(ev, func() { ev["r"] = int(geo.LinePolyRelation(m.line(l), gp)) })
}

func (d *driver) g11ring(m place, poly ipoly, g int) {
	gp := m.poly(poly)
	r := d.simpleRing(imax(3, d.rnd.Intn(g)))
	o := ip{d.rnd.Intn(g), d.rnd.Intn(g)}
	switch d.rnd.Intn(5) {
	case 0, 1: // a small one
		r = d.scramble(iclose([]ip{{0, 0}, {1, 0}, {0, 1}}))
	case 2: // one all around or across
		r = d.simpleRing(g + 3)
		o = ip{-d.rnd.Intn(4), -d.rnd.Intn(4)}
	}
	for i := range r {
		r[i] = ip{r[i][0] + o[0] - 1, r[i][1] + o[1] - 1}
	}
	ev := E{"op": "ringpoly", "poly": poly, "l": r, "rs": []int{-1, -1}}
	d.planeEv(ev, func() {
		ev["rs"] = []int{int(geo.LinearPolyRelation(m.ring(r), gp)), int(geo.PolyRelation(m.poly(ipoly{r}), gp))}
	})
}

/*---------------------------- V01 rotation and angles ----------------------------*/

var rots = [][3]int{{1, 0, 1}, {0, 1, 1}, {-1, 0, 1}, {0, -1, 1}, {3, 4, 5}, {4, -3, 5}, {-4, 3, 5}, {5, 12, 13}, {-12, 5, 13}, {-3, -4, 5}, {15, 8, 17}, {-7, 24, 25}, {40, -9, 41}, {99, 20, 101}, {2499, 100, 2501}, {-2499, 100, 2501}, {-12, -35, 37}}

// smallRot turns by k millionths of a radian beside a whole number of quarter turns.
func smallRot(d *driver) {
	k := []int{d.rnd.Intn(21) - 10, d.rnd.Intn(2001) - 1000, d.rnd.Intn(20001) - 10000}[d.rnd.Intn(3)]
	q := d.rnd.Intn(5) - 2
	if d.rnd.Intn(3) == 0 {
		q = d.rnd.Intn(81) - 40
	}
	far := []int{1, 100}[d.rnd.Intn(2)] // as far away, as small the unit of k
	turn := func(k int) float64 { return float64(q)*math.Pi/2 + float64(k)/1e6/float64(far) }
	angle := turn(k)
	some := func(n int) ip { return ip{d.rnd.Intn(2*n+1) - n, d.rnd.Intn(2*n+1) - n} }
	c := some(1000)
	ps, cw, ccw := []ip{}, [][]int{}, [][]int{}
	for n := 1 + d.rnd.Intn(5); n > 0; n-- {
		v := some(200)
		ps = append(ps, ip{c[0] + far*v[0], c[1] + far*v[1]})
	}
	ev := E{"op": "rotk", "c": c, "ps": ps, "q": q, "k": k, "m": far, "cw": cw, "ccw": ccw}
	m := place{1, 0, 0}
	d.planeEv(ev, func() {
		d.decoy(func([]geo.Point) { // a turn by nearly as much
			z := turn(k + d.rnd.Intn(31) - 15)
			geo.RotateCW(m.pt(ps[0]), m.pt(c), z)
			geo.RotateCCW(m.pt(ps[0]), m.pt(c), z)
		})
		for _, p := range ps {
			a := geo.RotateCW(m.pt(p), m.pt(c), angle).(geo.Point)
			b := geo.RotateCCW(m.pt(p), m.pt(c), angle).(geo.Point)
			cw, ccw = append(cw, []int{qz(a.X, 10000), qz(a.Y, 10000)}), append(ccw, []int{qz(b.X, 10000), qz(b.Y, 10000)})
		}
		ev["cw"], ev["ccw"] = cw, ccw
	})
}

func v01(d *driver) {
	if d.rnd.Intn(8) == 0 {
		smallRot(d)
		return
	}
	switch d.rnd.Intn(5) {
	case 0, 1:
		ro := rots[d.rnd.Intn(len(rots))]
		// coordinates are whole multiples of 1/den beside some origin
		den := []int{1, 1, 2, 8, 64}[d.rnd.Intn(5)]
		m := []place{{1, 0, 0}, {1, 0, 0}, {1, 500000, 4649776}, {1, -20037508, 1024}, {1, 116, -39}}[d.rnd.Intn(5)]
		m.s = 1 / float64(den)
		bound := imin(50000/ro[2], []int{5, 30, 2000}[d.rnd.Intn(3)])
		some := func() ip { return ip{d.rnd.Intn(2*bound+1) - bound, d.rnd.Intn(2*bound+1) - bound} }
		c := some()
		ps := []ip{}
		n := 3 + d.rnd.Intn(4)
		if d.rarely() {
			n += d.rnd.Intn(70)
		}
		for i := 0; i < n; i++ {
			ps = append(ps, some())
		}
		angle := math.Atan2(float64(ro[1]), float64(ro[0]))
		if d.rnd.Intn(2) == 0 {
			angle += 2 * math.Pi * float64(d.rnd.Intn(9)-3)
		}
		ev := E{"op": "rot", "den": den, "c": c, "ps": ps, "ro": ro, "cw": [][]int{}, "ccw": [][]int{}, "back": [][]int{}, "rings": [][]ip{}, "poly": [][][]int{}}
		rings := ipoly{iclose(ps)}
		for k := d.rnd.Intn(6) - 3; k > 0; k-- { // holes
			h := iring{}
			for i, n := 0, 3+d.rnd.Intn(3); i < n; i++ {
				h = append(h, some())
			}
			rings = append(rings, iclose(h))
		}
		ev["rings"] = rings
		q4 := func(g geo.Geometry) []int {
			p := g.(geo.Point)
			return []int{qz(p.X-m.ox, 10000), qz(p.Y-m.oy, 10000)}
		}
		d.planeEv(ev, func() {
			cw, ccw, back, pl := [][]int{}, [][]int{}, [][]int{}, [][][]int{}
			for _, p := range ps {
				a := geo.RotateCW(m.pt(p), m.pt(c), angle)
				cw = append(cw, q4(a))
				ccw = append(ccw, q4(geo.RotateCCW(m.pt(p), m.pt(c), angle)))
				back = append(back, q4(geo.RotateCCW(a, m.pt(c), angle)))
			}
			g := geo.RotateCW(m.poly(rings), m.pt(c), angle)
			d.decoy(func(o []geo.Point) { geo.RotateCW(geo.Polygon{geo.LinearRing(o)}, o[0], 1) })
			for _, r := range g.(geo.Polygon) {
				x := [][]int{}
				for _, p := range r {
					x = append(x, q4(p))
				}
				pl = append(pl, x)
			}
			ev["cw"], ev["ccw"], ev["back"], ev["poly"] = cw, ccw, back, pl
		})
	case 2, 3:
		c, p, q := d.pt(8), d.pt(8), d.pt(8)
		switch d.rnd.Intn(6) {
		case 0:
			q = ip{2*c[0] - p[0], 2*c[1] - p[1]}
		case 1:
			q = p
		case 2:
			if d.rnd.Intn(2) == 0 {
				p = c
			} else {
				q = c
			}
		}
		m := []place{{1, 0, 0}, {0.25, 3, -2}, {8, -100, 7}, {1 << 40, 1 << 52, -1 << 55}, {hugeScale, 0, 0}, {1. / 8192, 113, 23}, {1. / (1 << 17), 0, 0}}[d.rnd.Intn(7)]
		k := d.rnd.Intn(9) - 4
		ev := E{"op": "angle", "c": c, "p": p, "q": q, "err": 0, "mr": 0, "sn": 0, "cs": 0, "cerr": 0, "cx": 0, "qerr": 0, "qsn": 0, "qcs": 0, "qmr": 0, "k": k, "v": [][]int{}, "s": []int{}, "un": []int{0, 0}}
		d.planeEv(ev, func() {
			th, err := geo.CacAngle(m.pt(p), m.pt(c), m.pt(q))
			ev["err"] = b2i(err != nil)
			ev["mr"], ev["sn"], ev["cs"] = int(math.Floor(th*1000)), qz(math.Sin(th), 1000000), qz(math.Cos(th), 1000000)
			if p != q && p[0] != c[0] || true {
				cx, err := geo.CacConvex(m.pt(p), m.pt(c), m.pt(q))
				ev["cerr"], ev["cx"] = b2i(err != nil), int(cx)
			}
			qa, err := geo.CacQuadrantAngle(m.pt(c), m.pt(q))
			ev["qerr"] = b2i(err != nil)
			ev["qmr"], ev["qsn"], ev["qcs"] = int(math.Floor(qa*1000)), qz(math.Sin(qa), 1000000), qz(math.Cos(qa), 1000000)
			n := place{1, 0, 0}
			v, u := geo.ConvertPointToVector(n.pt(c), n.pt(p)), geo.ConvertSegToVector(n.seg(c, q))
			iv := func(w geo.Vector2) []int { return []int{lat(w.X), lat(w.Y)} }
			mul := v.Clone()
			mul.Multiply(float64(k))
			ev["v"] = [][]int{iv(*v), iv(*u), iv(v.Add(*u)), iv(v.Sub(*u)), iv(*mul), iv(geo.Add(*v, *u)), iv(*v.Clone())}
			ev["s"] = []int{lat(v.Dot(*u)), lat(v.Cross(*u)), lat(v.LengthSq()), lat(v.Length() * v.Length()), b2i(v.Equal(*u)), b2i(v.Equal(*v.Clone()))}
			if c != p {
				w := geo.Normalize(*v)
				x := v.Clone()
				x.Normalize()
				if math.Abs(w.X-x.X)+math.Abs(w.Y-x.Y) > 1e-9 {
					ev["un"] = []int{off, off}
				} else {
					ev["un"] = []int{qz(w.X, 10000), qz(w.Y, 10000)}
				}
				y := geo.NewVector2(v.X, v.Y)
				if k != 0 {
					y.Divide(float64(k))
					y.Multiply(float64(k))
					if math.Abs(y.X-v.X)+math.Abs(y.Y-v.Y) > 1e-9 {
						ev["un"] = []int{off, off}
					}
				}
			}
		})
	case 4:
		if d.rnd.Intn(3) == 0 { // unit vectors of vectors of any length, nearly 1 among them
			a, b := float64(d.rnd.Intn(2001)-1000), float64(d.rnd.Intn(2001)-1000)
			if d.rnd.Intn(4) == 0 {
				a, b = float64(d.rnd.Intn(7)-3), float64(d.rnd.Intn(7)-3)
			}
			if a == 0 && b == 0 {
				a = 1
			}
			s := []float64{1, 1, 1e-3, 1 << 30, 1. / (1 << 40), 1e100, 1e-100, (1 + []float64{0, 1e-4, -1e-4, 1e-2, -1e-5, 1e-5}[d.rnd.Intn(6)]) / math.Hypot(a, b)}[d.rnd.Intn(8)]
			ev := E{"op": "norm", "v": []int{int(a), int(b)}, "u": [][]int{}}
			d.planeEv(ev, func() {
				v := geo.NewVector2(a*s, b*s)
				w := geo.Normalize(*v)
				q := func(x *geo.Vector2) []int { return []int{qz(x.X, 1e6), qz(x.Y, 1e6)} }
				u := [][]int{q(w)}
				same := v.X == a*s && v.Y == b*s
				v.Normalize()
				u = append(u, q(v))
				w.Normalize() // once more: no change
				u = append(u, q(w))
				if !same {
					u = [][]int{}
				}
				ev["u"] = u
			})
			return
		}
		c := ip{d.rnd.Intn(400) - 200, d.rnd.Intn(200) - 100}
		rad := []float64{0, 0.001, 0.5, 1, 3, 1000, 0.0078125, -1, -0.25, 15.5, 250, 50000, 1e6, 123456.75, 5e7}[d.rnd.Intn(15)]
		m := place{1, 0, 0}
		ev := E{"op": "buffer", "neg": b2i(rad < 0), "zero": b2i(rad == 0), "rings": 0, "q": [][]int{}}
		d.planeEv(ev, func() {
			g := m.pt(c).Buffer(rad)
			ev["rings"] = len(g)
			q := [][]int{}
			for _, p := range g.GetExteriorRing() {
				if rad == 0 {
					q = append(q, []int{qz(p.X-float64(c[0]), 1e6), qz(p.Y-float64(c[1]), 1e6)})
				} else {
					q = append(q, []int{qz((p.X-float64(c[0]))/rad, 10000), qz((p.Y-float64(c[1]))/rad, 10000)})
				}
			}
			ev["q"] = q
		})
	}
}
