package main

import (
	"encoding/json"

	geo "github.com/hzw456/go-geo"
)

// D02: distances to shapes with the GPS reference system, in centimetres.

func init() { suites["gps"] = gpsSuite; suites["gpsgen"] = gpsGenSuite }

const gps = geo.SRID_WGS84_GPS

var gpsPlaces = []place{{1, 0, 0}, {1, -6, -6}, {1, -6, 70}, {1, -180, -90}, {1, 160, 30}, {0.5, -3, 2}, {0.25, 170, 50}, {0.125, -75, -40}, {2, 40, -12}, {7, -20, -80}, {1. / 64, 113, 23}, {1. / 1024, -122, 37}, {1. / 8192, 7, 51}}

func (d *driver) gpsPlace() place { return gpsPlaces[d.rnd.Intn(len(gpsPlaces))] }

// gpsEv names the grid: u millidegrees per step (0: not whole), o whole degrees.
func (d *driver) gpsEv(m place, ev E, f func()) {
	ev["u"] = 0
	if u := m.s * 1000; u == float64(int(u)) {
		ev["u"] = int(u)
	}
	ev["o"] = []int{int(m.ox), int(m.oy)}
	d.planeEv(ev, f)
}
func cm(x float64) int { return qz(x, 100) }

func (d *driver) gpsSeg(m place, p, a, b ip) {
	ev := E{"op": "seg", "p": p, "a": a, "b": b, "d": nan, "dq": 0, "foot": [][]int{{0, 0}, {0, 0}}, "ld": nan, "ldq": 0, "lfoot": [][]int{{0, 0}, {0, 0}}, "lu": []int{0, 0}}
	d.gpsEv(m, ev, func() {
		x, f := geo.PointToSegmentDistance(m.pt(p), m.pt(a), m.pt(b), gps)
		ev["d"], ev["dq"], ev["foot"] = cm(x), cm(geo.CoordDistance(m.pt(p), f)), m.rat(f, 1000)
		if a != b {
			x, f, u := geo.PointToLineDistance(m.pt(p), m.pt(a), m.pt(b), gps)
			ev["ld"], ev["ldq"], ev["lfoot"], ev["lu"] = cm(x), cm(geo.CoordDistance(m.pt(p), f)), m.rat(f, 1000), rat(u, 1000)
		}
	})
}
func gpsEdges(m place, p ip, l []ip) []int {
	r := []int{}
	for i := 0; i+1 < len(l); i++ {
		x, _ := geo.PointToSegmentDistance(m.pt(p), m.pt(l[i]), m.pt(l[i+1]), gps)
		r = append(r, cm(x))
	}
	return r
}
func (d *driver) gpsPoly(m place, poly ipoly, qs []ip) {
	ev := E{"op": "poly", "poly": poly, "qs": qs, "ds": []int{}, "es": [][]int{}}
	d.gpsEv(m, ev, func() {
		ds, es := []int{}, [][]int{}
		for _, q := range qs {
			ds = append(ds, cm(geo.PointPolygonDistance(m.pt(q), m.poly(poly), gps)))
			e := []int{}
			for _, r := range poly {
				e = append(e, gpsEdges(m, q, r)...)
			}
			es = append(es, e)
		}
		ev["ds"], ev["es"] = ds, es
	})
}
func (d *driver) gpsHit(m place, p ip, l []ip) {
	ev := E{"op": "hit", "p": p, "l": l, "d": nan, "dq": 0, "i": 0, "foot": [][]int{{0, 0}, {0, 0}}, "es": []int{}}
	d.gpsEv(m, ev, func() {
		f, i, x := geo.PointHitLineString(m.pt(p), m.line(l), gps)
		ev["d"], ev["dq"], ev["i"], ev["foot"] = cm(x), cm(geo.CoordDistance(m.pt(p), f)), i+1, m.rat(f, 1000)
		ev["es"] = gpsEdges(m, p, l)
	})
}
func (d *driver) gpsHaus(m place, l, k []ip) {
	ev := E{"op": "haus", "l": l, "k": k, "h": nan, "hb": 0, "t": [][]int{}}
	d.gpsEv(m, ev, func() {
		t := [][]int{}
		for _, p := range l {
			r := []int{}
			for _, q := range k {
				r = append(r, cm(geo.CoordDistance(m.pt(p), m.pt(q))))
			}
			t = append(t, r)
		}
		ev["t"] = t
		ev["h"], ev["hb"] = cm(geo.HausdorffDistance(m.line(l), m.line(k), gps)), cm(geo.HausdorffDistance(m.line(k), m.line(l), gps))
	})
}

// gpsThin simplifies with a threshold of th centimetres; th < 0 picks one near a distance that matters.
func (d *driver) gpsThin(m place, l []ip, th int) {
	n := len(l)
	ev := E{"op": "thin", "l": l, "th": 0, "t": [][][]int{}, "r": [][]int{}}
	d.gpsEv(m, ev, func() {
		t := make([][][]int, n)
		some := []int{}
		for s := 0; s < n; s++ {
			t[s] = make([][]int, n)
			for e := 0; e < n; e++ {
				t[s][e] = make([]int, n)
				for i := s + 1; i < e; i++ {
					x, _ := geo.PointToSegmentDistance(m.pt(l[i]), m.pt(l[s]), m.pt(l[e]), gps)
					t[s][e][i] = cm(x)
					some = append(some, cm(x))
				}
			}
		}
		th := th
		if th < 0 && len(some) > 0 {
			th = imax(0, some[d.rnd.Intn(len(some))]+[]int{-3, 3, -1000, 1000, -100000, 50}[d.rnd.Intn(6)])
		}
		th = imax(th, 0)
		ev["t"], ev["th"] = t, th
		r := geo.DouglasPeuckerSimplify(m.line(l), float64(th)/100, gps)
		d.decoy(func([]geo.Point) { geo.DouglasPeuckerSimplify(geo.LineString{{1, 2}, {3, 5}, {2, 7}, {1, 2}}, 1, gps) })
		ev["r"] = m.backAll(r)
	})
}

func gpsSuite(d *driver) {
	for d.nev < d.n {
		m := d.gpsPlace()
		g := []int{3, 5, 12}[d.rnd.Intn(3)]
		switch d.rnd.Intn(6) {
		case 0:
			p, a, b := d.pt(g), d.pt(g), d.pt(g)
			if d.rnd.Intn(6) == 0 {
				b = a
			}
			d.gpsSeg(m, p, a, b)
		case 1:
			poly := d.simplePoly([]int{4, 8, 12}[d.rnd.Intn(3)], d.rnd.Intn(3))
			if poly.extent() > 12 { // a large one stays within the globe
				m = gpsPlaces[[]int{6, 7, 10, 11, 12}[d.rnd.Intn(5)]]
			}
			qs := d.ptsOf(12, 5)
			for _, r := range poly[1:] {
				v := r[d.rnd.Intn(len(r)-1)]
				qs = append(qs, ip{v[0] + 1, v[1]}, ip{v[0], v[1] + 1}, ip{v[0] - 1, v[1]}, ip{v[0], v[1] - 1})
			}
			d.gpsPoly(m, poly, qs)
		case 2:
			l := d.ptsOf(g, 2+d.rnd.Intn(6))
			if d.rarely() {
				l = d.walk(12, 8+d.rnd.Intn(130))
			}
			d.gpsHit(m, d.pt(g), l)
		case 3:
			l, k := d.distinctLine(g, 2+d.rnd.Intn(5)), d.distinctLine(g, 2+d.rnd.Intn(5))
			if d.rarely() {
				l, k = d.walk(12, 2+d.rnd.Intn(20)), d.walk(12, 2+d.rnd.Intn(20))
				if d.rnd.Intn(5) == 0 {
					l = d.walk(12, 60+d.rnd.Intn(10))
				}
			}
			d.gpsHaus(m, l, k)
		default:
			l := d.ptsOf(g, 1+d.rnd.Intn(7))
			switch d.rnd.Intn(4) {
			case 0: // a graph
				for i := range l {
					l[i][0] = i
				}
			case 1:
				l = []ip(d.simpleRing(6))
				if len(l) > 9 {
					l = l[:9]
				}
			case 2:
				if d.rnd.Intn(8) == 0 {
					l = d.walk(8, 10+d.rnd.Intn(15))
				}
			}
			d.gpsThin(m, l, -1)
		}
	}
}

// the small figures TLC generated
func gpsGenSuite(d *driver) {
	d.behaviours(func(b []byte) {
		var f []ip
		if err := json.Unmarshal(b, &f); err != nil {
			panic(err)
		}
		m := d.gpsPlace()
		if len(f) == 2 {
			for x := 0; x < 4; x++ {
				for y := 0; y < 4; y++ {
					d.gpsSeg(m, ip{x, y}, f[0], f[1])
				}
			}
		} else {
			d.gpsThin(m, f, -1)
			if len(f) == 3 {
				d.gpsHit(m, f[0], f[1:])
			}
		}
	})
}
