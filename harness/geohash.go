package main

import (
	"math"

	geo "github.com/hzw456/go-geo"
)

func init() { suites["geohash"] = geohashSuite }

const gcells = 1 << 30

func glon(i int) float64 { return -180 + float64(i)*45/(1<<27) }
func glat(j int) float64 { return -90 + float64(j)*45/(1<<28) }

// column or row of a position: its cell's lower edge, middle, just under its upper edge,
// or on it (the last cell only, which includes latitude 90 and longitude 180)
func gplace(f func(int) float64, i, place int) float64 {
	lo, hi := f(i), f(i+1)
	switch place {
	case 0:
		return lo
	case 1:
		return lo + (hi-lo)/2
	case 2:
		return hi - (hi-lo)/512
	}
	return hi
}

// gline is the grid line a coordinate lies on, or -1.
func gline(x, lo, span float64) int {
	v := (x - lo) / span * gcells
	r := math.Round(v)
	if math.IsNaN(v) || math.Abs(v-r) > 1e-4 || r < 0 || r > gcells {
		return -1
	}
	return int(r)
}

// ghalf is <<line, half>> of a coordinate on a grid line or half way to the next.
func ghalf(x, lo, span float64) []int {
	v := (x - lo) / span * gcells * 2
	r := math.Round(v)
	if math.IsNaN(v) || math.Abs(v-r) > 1e-4 || r < 0 || r > 2*gcells {
		return []int{-1, 0}
	}
	return []int{int(r) / 2, int(r) % 2}
}

func chars(s string) []string {
	r := []string{}
	for _, c := range s {
		r = append(r, string(c))
	}
	return r
}

// gindex picks a column or row: anywhere, next to a coarse cell's edge, or at the ends.
func (d *driver) gindex() int {
	switch d.rnd.Intn(5) {
	case 0, 1:
		return d.rnd.Intn(gcells)
	case 2:
		k := uint(d.rnd.Intn(30))
		v := (d.rnd.Intn(gcells>>k) << k) - d.rnd.Intn(2)
		if v < 0 {
			v += gcells
		}
		return v
	case 3:
		return d.rnd.Intn(3)
	}
	return gcells - 1 - d.rnd.Intn(3)
}

var gsrids = []geo.SRID{geo.SRID_WGS84_GPS, geo.SRID_WGS84_GPS, geo.SRID_WGS84_GPS, geo.SRID_WGS84_PSEUDO_MERCATOR}

// decoyHash is another cell of the same precision.
func decoyHash(h string) string {
	return "u33dc0cpnb7x"[:len(h)]
}

func geohashSuite(d *driver) {
	p, i, j := 1, 0, 0
	for t := 0; t < d.n; t++ {
		if t > 0 && d.rnd.Intn(2) == 0 { // near the one before in its digits: some of them differ, the rest are the same
			for k := 1 + d.rnd.Intn(3); k > 0; k-- {
				if d.rnd.Intn(2) == 0 {
					i ^= 1 << uint(d.rnd.Intn(30))
				} else {
					j ^= 1 << uint(d.rnd.Intn(30))
				}
			}
			if d.rnd.Intn(4) == 0 {
				p = 1 + d.rnd.Intn(12)
			}
		} else {
			p, i, j = 1+d.rnd.Intn(12), d.gindex(), d.gindex()
		}
		px, py := d.rnd.Intn(3), d.rnd.Intn(3)
		if i == gcells-1 && d.rnd.Intn(2) == 0 {
			px = 3
		}
		if j == gcells-1 && d.rnd.Intn(2) == 0 {
			py = 3
		}
		srid := gsrids[d.rnd.Intn(len(gsrids))]
		pt := geo.Point{X: gplace(glon, i, px), Y: gplace(glat, j, py)}
		ev := E{"op": "geohash", "p": p, "i": i, "j": j, "px": px, "py": py}
		d.inflight(ev)
		none := []string{}
		ev["hash"], ev["back"], ev["nb"], ev["bnd"], ev["cx"], ev["cy"], ev["inside"], ev["corner"] = none, none, [][]string{}, []int{}, []int{}, []int{}, 0, [][]string{}
		d.call(func() {
			h := geo.GeohashEncode(pt, uint(p), srid)
			ev["hash"] = chars(h)
			b := geo.GeohashGetBoundary(h, srid)
			ev["bnd"] = []int{gline(b.MinX, -180, 360), gline(b.MinY, -90, 180), gline(b.MaxX, -180, 360), gline(b.MaxY, -90, 180)}
			ev["inside"] = b2i(b.MinX <= pt.X && pt.X <= b.MaxX && b.MinY <= pt.Y && pt.Y <= b.MaxY)
			c := geo.GeohashGetCenter(h, srid)
			ev["cx"], ev["cy"] = ghalf(c.X, -180, 360), ghalf(c.Y, -90, 180)
			ev["back"] = chars(geo.GeohashEncode(c, uint(p), srid))
			// points well inside the reported boundary
			cs := [][]string{}
			for _, f := range [][2]float64{{1.0 / 64, 1.0 / 64}, {63.0 / 64, 1.0 / 64}, {1.0 / 64, 63.0 / 64}, {63.0 / 64, 63.0 / 64}} {
				q := geo.Point{X: b.MinX + (b.MaxX-b.MinX)*f[0], Y: b.MinY + (b.MaxY-b.MinY)*f[1]}
				cs = append(cs, chars(geo.GeohashEncode(q, uint(p), srid)))
			}
			ev["corner"] = cs
			nb := [][]string{}
			ns := geo.GeohashGetAllNeighbors(h, srid)
			if d.rnd.Intn(2) == 0 { // what was returned does not change when others ask
				geo.GeohashGetAllNeighbors(decoyHash(h), srid)
			}
			for _, s := range ns {
				nb = append(nb, chars(s))
			}
			ev["nb"] = nb
		})
		d.one(ev)
	}
}
