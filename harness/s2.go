package main

import (
	"fmt"
	"math"
	"math/bits"
	"strconv"

	geo "github.com/hzw456/go-geo"
)

func init() { suites["s2"] = s2Suite }

// s2cell takes a cell identifier apart: three bits of face, two per level, a one bit.
func s2cell(id uint64) E {
	z := bits.TrailingZeros64(id)
	if id == 0 || z%2 != 0 || id>>61 > 5 {
		return E{"f": 9, "d": []int{}}
	}
	dg := []int{}
	for k := 0; k < 30-z/2; k++ {
		dg = append(dg, int(id>>uint(59-2*k)&3))
	}
	return E{"f": int(id >> 61), "d": dg}
}

// s2pos measures a position: the cube faces it lies on and its coordinates there, in
// units of 2^-31 of the face's width from the middle.
func s2pos(lon, lat float64) [][]int {
	la, lo := lat*math.Pi/180, lon*math.Pi/180
	x, y, z := math.Cos(la)*math.Cos(lo), math.Cos(la)*math.Sin(lo), math.Sin(la)
	r := [][]int{}
	for f, uvw := range [][3]float64{{y, z, x}, {-x, z, y}, {-x, -y, z}, {-z, -y, -x}, {-z, x, -y}, {y, x, -z}} {
		w := uvw[2]
		if !(w > 0) {
			continue
		}
		st := func(u float64) (int, bool) {
			if math.Abs(u) > 1+1e-11 {
				return 0, false
			}
			u = math.Max(-1, math.Min(1, u))
			s := 1 - 0.5*math.Sqrt(1-3*math.Min(u, 0))
			if u >= 0 {
				s = 0.5 * math.Sqrt(1+3*u)
			}
			return int(math.Round((s*2 - 1) * (1 << 30))), true
		}
		s, ok1 := st(uvw[0] / w)
		t, ok2 := st(uvw[1] / w)
		if ok1 && ok2 {
			r = append(r, []int{f, s, t})
		}
	}
	return r
}

func (d *driver) s2point() geo.Point {
	switch d.rnd.Intn(6) {
	case 0:
		return geo.Point{X: float64(d.rnd.Intn(361) - 180), Y: float64(d.rnd.Intn(181) - 90)}
	case 1: // face middles, edges and corners
		return geo.Point{X: []float64{-180, -135, -90, -45, 0, 45, 90, 135, 180}[d.rnd.Intn(9)], Y: []float64{-90, -45, -35.264389682754654, 0, 35.264389682754654, 45, 90, 89.999999}[d.rnd.Intn(8)]}
	case 2: // close to them
		return geo.Point{X: []float64{-135, -45, 45, 135}[d.rnd.Intn(4)] + (d.rnd.Float64()-0.5)/math.Pow(10, float64(d.rnd.Intn(8))), Y: []float64{-35.264389682754654, 35.264389682754654, 0, 45}[d.rnd.Intn(4)] + (d.rnd.Float64()-0.5)/math.Pow(10, float64(d.rnd.Intn(8)))}
	}
	return geo.Point{X: d.rnd.Float64()*360 - 180, Y: math.Asin(d.rnd.Float64()*2-1) * 180 / math.Pi}
}

func s2level(d *driver) int {
	switch d.rnd.Intn(3) {
	case 0:
		return d.rnd.Intn(4)
	case 1:
		return 27 + d.rnd.Intn(4)
	}
	return d.rnd.Intn(31)
}

func s2Suite(d *driver) {
	gps := geo.SRID_WGS84_GPS
	for t := 0; t < d.n; t++ {
		if d.rnd.Intn(6) == 0 {
			d.s2cover()
			continue
		}
		p, level := d.s2point(), s2level(d)
		lv := []int{0, level, d.rnd.Intn(level + 1), d.rnd.Intn(level + 1)}
		bad := E{"f": 9, "d": []int{}}
		ev := E{"op": "cell", "p": []string{bitsOf(p.X), bitsOf(p.Y)}, "pos": s2pos(p.X, p.Y), "level": level, "lv": lv, "cell": bad, "anc": []E{}, "centre": [][]int{}, "back": bad, "bnd": [][][]int{}, "nb": []E{}, "none": []int{9}}
		d.inflight(ev)
		d.call(func() {
			id := geo.S2GetCellID(p, level, gps)
			ev["cell"] = s2cell(id)
			anc := []E{}
			for _, l := range lv {
				anc = append(anc, s2cell(geo.S2GetCellID(p, l, gps)))
			}
			ev["anc"] = anc
			other := geo.S2GetCellID(geo.Point{X: 12.5, Y: -33}, level, gps)
			if c := geo.S2GetCenter(id, gps); c != nil {
				d.decoy(func([]geo.Point) { geo.S2GetCenter(other, gps) })
				ev["centre"] = s2pos(c.X, c.Y)
				ev["back"] = s2cell(geo.S2GetCellID(*c, level, gps))
			}
			b := [][][]int{}
			bs := geo.S2GetBoundary(id, gps)
			d.decoy(func([]geo.Point) { geo.S2GetBoundary(other, gps) })
			for _, q := range bs {
				b = append(b, s2pos(q.X, q.Y))
			}
			ev["bnd"] = b
			nb := []E{}
			ns := geo.S2GetAllNeighbors(id, gps)
			d.decoy(func([]geo.Point) { geo.S2GetAllNeighbors(other, gps) })
			for _, n := range ns {
				nb = append(nb, s2cell(n))
			}
			ev["nb"] = nb
			o := osrids[d.rnd.Intn(len(osrids))]
			ev["none"] = []int{b2i(geo.S2GetCellID(p, level, o) != 0), b2i(geo.S2GetCenter(id, o) != nil), len(geo.S2GetBoundary(id, o)), len(geo.S2GetAllNeighbors(id, o))}
		})
		d.one(ev)
	}
}

// s2cover covers a small polygon: a ring on a 16 by 16 grid laid over a patch of the earth.
func (d *driver) s2cover() {
	den := 16
	ring := d.simpleRing(16)
	if d.rnd.Intn(6) == 0 { // many corners
		den = 96
		for k := 0; k < 20 && len(ring) < 40; k++ {
			ring = d.simpleRing(96)
		}
	}
	size := math.Pow(10, -float64(d.rnd.Intn(4)))
	lon0, lat0 := d.rnd.Float64()*340-170, d.rnd.Float64()*150-75
	switch d.rnd.Intn(4) {
	case 0: // over face edges and corners
		lon0, lat0 = []float64{-135, -45, 45, 135}[d.rnd.Intn(4)]-size/2, []float64{-35.2643, 35.2643, 0, 45}[d.rnd.Intn(4)]-size/2
	case 1:
		lon0, lat0 = math.Round(lon0), math.Round(lat0)
	}
	level := int(math.Log2(90/size)) + d.rnd.Intn(6)
	at := func(p ip) geo.Point {
		return geo.Point{X: lon0 + float64(p[0])*size/float64(den), Y: lat0 + float64(p[1])*size/float64(den)}
	}
	mk := func(r iring) geo.Polygon {
		ps := []geo.Point{}
		for _, p := range r {
			ps = append(ps, at(p))
		}
		return *geo.NewPolygonFromPois(ps...)
	}
	qs := []ip{}
	for k := 0; k < 40 && len(qs) < 8; k++ {
		q := d.pt(den)
		if iin(ring, q) == 2 {
			qs = append(qs, q)
		}
	}
	ev := E{"op": "cover", "ring": ring, "base": []string{bitsOf(lon0), bitsOf(lat0), bitsOf(size), fmt.Sprint(den)}, "level": level, "ids": []string{}, "levels": []int{}, "vid": []string{}, "qs": qs, "qid": []string{}, "again": [][]string{}}
	d.inflight(ev)
	ids := func(l []uint64) []string {
		r := []string{}
		for _, x := range l {
			r = append(r, strconv.FormatUint(x, 16))
		}
		return r
	}
	d.call(func() {
		gps := geo.SRID_WGS84_GPS
		poly := mk(ring)
		got := geo.S2RegionCoverer(poly, level, gps)
		d.decoy(func([]geo.Point) {
			geo.S2RegionCoverer(geo.Polygon{{{5, 5}, {5.01, 5}, {5, 5.01}, {5, 5}}}, 14, gps)
		})
		lv := []int{}
		for _, x := range got {
			c := s2cell(x)
			if c["f"] == 9 {
				lv = append(lv, -1)
			} else {
				lv = append(lv, len(c["d"].([]int)))
			}
		}
		vid, qid := []string{}, []string{}
		for _, p := range ring {
			vid = append(vid, strconv.FormatUint(geo.S2GetCellID(at(p), level, gps), 16))
		}
		for _, p := range qs {
			qid = append(qid, strconv.FormatUint(geo.S2GetCellID(at(p), level, gps), 16))
		}
		ev["ids"], ev["levels"], ev["vid"], ev["qid"] = ids(got), lv, vid, qid
		ev["again"] = [][]string{ids(geo.S2RegionCoverer(poly, level, gps)), ids(geo.S2RegionCoverer(mk(rev(ring)), level, gps)), ids(geo.S2RegionCoverer(mk(rot(ring, d.rnd.Intn(len(ring)-1))), level, gps))}
	})
	d.one(ev)
}
