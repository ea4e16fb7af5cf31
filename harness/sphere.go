package main

import (
	"math"

	geo "github.com/hzw456/go-geo"
)

func init() { suites["sphere"] = sphereSuite }

var osrids = []geo.SRID{geo.SRID_WGS84_PSEUDO_MERCATOR, geo.SRID_WGS84_UTM_ZONE_44N, geo.SRID_WGS84_UTM_ZONE_53N, geo.SRID_WGS84_UTM_ZONE_50N, 0, 4490, 4325, 4327, -1}

func mdeg(p ip) geo.Point { return geo.Point{X: float64(p[0]) / 1000, Y: float64(p[1]) / 1000} }

// spos picks a position in millidegrees: whole degrees, special places, or anything.
func (d *driver) spos() ip {
	switch d.rnd.Intn(6) {
	case 0:
		return ip{d.rnd.Intn(361)*1000 - 180000, 0}
	case 1:
		return ip{[]int{-180000, -90000, 0, 90000, 180000, 179999, -179999}[d.rnd.Intn(7)], []int{-90000, 90000, 0, 45000, -45000, 89999, -89999}[d.rnd.Intn(7)]}
	case 2:
		return ip{d.rnd.Intn(360001) - 180000, d.rnd.Intn(180001) - 90000}
	}
	return ip{d.rnd.Intn(361)*1000 - 180000, d.rnd.Intn(181)*1000 - 90000}
}

// sother picks a second position: often on the same great circle, close, or opposite.
func (d *driver) sother(p ip) ip {
	wrap := func(l int) int {
		for l > 180000 {
			l -= 360000
		}
		for l < -180000 {
			l += 360000
		}
		return l
	}
	switch d.rnd.Intn(9) {
	case 0:
		return p
	case 1:
		return ip{p[0], d.rnd.Intn(181)*1000 - 90000}
	case 2:
		return ip{wrap(p[0] + 180000), d.rnd.Intn(181)*1000 - 90000}
	case 3: // the antipode, or next to it
		return ip{wrap(p[0] + 180000 + d.rnd.Intn(3) - 1), -p[1]}
	case 4:
		return ip{wrap(p[0] + 90000), []int{p[1], -p[1], 0}[d.rnd.Intn(3)]}
	case 5:
		q := ip{wrap(p[0] + d.rnd.Intn(5) - 2), p[1] + d.rnd.Intn(5) - 2}
		if q[1] > 90000 || q[1] < -90000 {
			q[1] = p[1]
		}
		return q
	case 6:
		return ip{wrap(p[0] + d.rnd.Intn(360)*1000), p[1]}
	}
	return d.spos()
}
func azin(a float64) int { return b2i(a >= 0 && a < 360) }

func sphereSuite(d *driver) {
	gps := geo.SRID_WGS84_GPS
	for t := 0; t < d.n; t++ {
		switch d.rnd.Intn(12) {
		case 0: // fine arcs
			u, along := d.rnd.Intn(18000), d.rnd.Intn(2)
			if d.rnd.Intn(2) == 0 {
				u = d.rnd.Intn(20)
			}
			var a, b geo.Point
			base := d.rnd.Intn(180) - 90
			if along == 0 {
				l := float64(d.rnd.Intn(361) - 180)
				a, b = geo.Point{X: l, Y: float64(base)}, geo.Point{X: l, Y: float64(base*1000000+u) / 1e6}
			} else {
				base = d.rnd.Intn(360) - 180
				a, b = geo.Point{X: float64(base), Y: 0}, geo.Point{X: float64(base*1000000+u) / 1e6, Y: 0}
			}
			ev := E{"op": "fine", "along": along, "base": base, "u": u, "d": nan, "dr": 0, "g": 0}
			d.inflight(ev)
			d.call(func() {
				ev["d"], ev["dr"], ev["g"] = qz(geo.PointDistance(a, b, gps), 1e6), qz(geo.PointDistance(b, a, gps), 1e6), qz(geo.CoordGreateCircle(a, b), 1e6)
			})
			d.one(ev)
		case 1: // other reference systems are planar
			p, q := d.pt(10000), d.pt(10000)
			ev := E{"op": "planar", "p": p, "q": q, "d2": []int{off}}
			d.inflight(ev)
			d.call(func() {
				r := []int{}
				for _, s := range osrids {
					v := geo.PointDistance(geo.Point{X: float64(p[0]), Y: float64(p[1])}, geo.Point{X: float64(q[0]), Y: float64(q[1])}, s)
					r = append(r, qz(v*v, 1))
				}
				ev["d2"] = r
			})
			d.one(ev)
		case 2, 3, 4: // travelling
			p := d.spos()
			brg := d.rnd.Intn(360000)
			if d.rnd.Intn(2) == 0 {
				brg = d.rnd.Intn(4) * 90000
			}
			m := d.rnd.Intn(180001)
			switch d.rnd.Intn(5) {
			case 0:
				m = d.rnd.Intn(181) * 1000
			case 1:
				m = d.rnd.Intn(20)
			case 2: // to the pole
				m = 90000 - p[1]
				brg = 0
				if d.rnd.Intn(2) == 0 {
					m, brg = 90000+p[1], 180000
				}
			}
			dist := 6371000 * math.Pi / 180 * float64(m) / 1000
			ev := E{"op": "dest", "p": p, "brg": brg, "m": m, "lon": nan, "lat": 0, "d": 0, "az": 0, "lonin": 0}
			d.inflight(ev)
			d.call(func() {
				s := mdeg(p)
				lat, lon := geo.DestinationPoint(s.Y, s.X, dist, float64(brg)/1000)
				e := geo.Point{X: lon, Y: lat}
				ev["lon"], ev["lat"], ev["lonin"] = qz(lon, 1e6), qz(lat, 1e6), b2i(lon >= -180 && lon <= 180)
				ev["d"], ev["az"] = qz(geo.CoordDistance(s, e), 100), qz(geo.GetAzimuth(s, e, gps), 1e6)
			})
			d.one(ev)
		case 5:
			p := ip{d.rnd.Intn(361)*1000 - 180000, d.rnd.Intn(160001) - 80000}
			brg := d.rnd.Intn(360000)
			um := d.rnd.Intn(2000000000)
			if d.rnd.Intn(2) == 0 {
				um = d.rnd.Intn(10000000)
			}
			ev := E{"op": "destfine", "p": p, "brg": brg, "um": um, "d": nan, "az": 0, "lonin": 0}
			d.inflight(ev)
			d.call(func() {
				s := mdeg(p)
				lat, lon := geo.DestinationPoint(s.Y, s.X, float64(um)/1e6, float64(brg)/1000)
				e := geo.Point{X: lon, Y: lat}
				ev["lonin"] = b2i(lon >= -180 && lon <= 180)
				ev["d"], ev["az"] = qz(geo.CoordDistance(s, e), 1e6), qz(geo.GetAzimuth(s, e, gps), 1e6)
			})
			d.one(ev)
		case 6: // any doubles
			tiny := func() float64 { return math.Ldexp(float64(d.rnd.Intn(3)-1), -d.rnd.Intn(80)) }
			pk := func(lim float64) float64 {
				v := (d.rnd.Float64()*2 - 1) * lim
				if d.rnd.Intn(3) == 0 {
					v = math.Round(v/15) * 15
				}
				return math.Max(-lim, math.Min(lim, v+tiny()))
			}
			a := geo.Point{X: pk(180), Y: pk(90)}
			b := geo.Point{X: pk(180), Y: pk(90)}
			switch d.rnd.Intn(4) {
			case 0:
				b = geo.Point{X: math.Max(-180, math.Min(180, a.X+tiny())), Y: math.Max(-90, math.Min(90, a.Y+tiny()))}
			case 1:
				b = geo.Point{X: a.X + 180, Y: -a.Y}
				if b.X > 180 {
					b.X -= 360
				}
			}
			ev := E{"op": "raw", "a": []string{bitsOf(a.X), bitsOf(a.Y)}, "b": []string{bitsOf(b.X), bitsOf(b.Y)}, "d": nan, "dr": 0, "g": 0, "gr": 0, "az": 0, "azb": 0, "other": []int{9}}
			d.inflight(ev)
			d.call(func() {
				ev["d"], ev["dr"] = qz(geo.CoordDistance(a, b), 100), qz(geo.CoordDistance(b, a), 100)
				ev["g"], ev["gr"] = qz(geo.CoordGreateCircle(a, b), 100), qz(geo.CoordGreateCircle(b, a), 100)
				ev["az"], ev["azb"] = azin(geo.GetAzimuth(a, b, gps)), azin(geo.GetAzimuth(b, a, gps))
				o := []int{}
				for k := 0; k < 3; k++ {
					o = append(o, qz(geo.GetAzimuth(a, b, osrids[d.rnd.Intn(len(osrids))]), 1e6))
				}
				ev["other"] = o
			})
			d.one(ev)
		default:
			p := d.spos()
			q := d.sother(p)
			ev := E{"op": "pair", "p": p, "q": q, "d": nan, "dr": 0, "g": 0, "gr": 0, "pd": 0, "az": 0, "azin": 0}
			d.inflight(ev)
			d.call(func() {
				a, b := mdeg(p), mdeg(q)
				ev["d"], ev["dr"] = qz(geo.CoordDistance(a, b), 100), qz(geo.CoordDistance(b, a), 100)
				ev["g"], ev["gr"] = qz(geo.CoordGreateCircle(a, b), 100), qz(geo.CoordGreateCircle(b, a), 100)
				ev["pd"] = qz(geo.PointDistance(a, b, gps), 100)
				z := geo.GetAzimuth(a, b, gps)
				ev["az"], ev["azin"] = qz(z, 1e6), azin(z)
			})
			d.one(ev)
		}
	}
}
