package main

import (
	"bufio"
	"encoding/json"
	"math"
	"os"

	geo "github.com/hzw456/go-geo"
)

func init() { suites["offset"] = offsetSuite; suites["offsetgen"] = offsetGenSuite }

// uhalf counts a coordinate in half microdegrees, as uval does: odd when strictly between two.
func uhalf(x float64) int {
	if math.IsNaN(x) || math.Abs(x) > 400 {
		return nan
	}
	k := int(math.Floor(x * 1e6))
	for float64(k)/1e6 > x {
		k--
	}
	for float64(k+1)/1e6 <= x {
		k++
	}
	if float64(k)/1e6 == x {
		return 2 * k
	}
	return 2*k + 1
}

type conv func(lon, lat float64) (float64, float64)

func leg(f, g conv, lon, lat float64) E {
	a, b := f(lon, lat)
	c, d := g(a, b)
	return E{"same": b2i(a == lon && b == lat), "off": []int{qz(a-lon, 1e7), qz(b-lat, 1e7)}, "at": []int{uhalf(a), uhalf(b)}, "back": []int{qz(c-lon, 1e9), qz(d-lat, 1e9)}}
}

func (d *driver) offsetPos(row, lon, lat int) {
	x, y := uval(lon), uval(lat)
	z := []int{nan, nan}
	bad := E{"same": 9, "off": z, "at": z, "back": z}
	ev := E{"op": "conv", "row": row, "lon": lon, "lat": lat, "wg": bad, "gw": bad, "bd": z, "db": z, "gb": z, "wb": z, "bw": z}
	// and a place close by, north-east of it
	near := []int{lon + 10000, lat + 10000}
	ev["near"], ev["nwg"], ev["ngw"], ev["ngb"] = near, z, z, z
	nx, ny := uval(near[0]), uval(near[1])
	d.inflight(ev)
	d.call(func() {
		for k, f := range map[string]conv{"nwg": geo.WGS84toGCJ02, "ngw": geo.GCJ02toWGS84, "ngb": geo.GCJ02toBD09} {
			a, b := f(nx, ny)
			ev[k] = []int{qz(a-nx, 1e7), qz(b-ny, 1e7)}
		}
		ev["wg"], ev["gw"] = leg(geo.WGS84toGCJ02, geo.GCJ02toWGS84, x, y), leg(geo.GCJ02toWGS84, geo.WGS84toGCJ02, x, y)
		l := leg(geo.GCJ02toBD09, geo.BD09toGCJ02, x, y)
		ev["bd"], ev["gb"] = l["back"], l["off"]
		ev["db"] = leg(geo.BD09toGCJ02, geo.GCJ02toBD09, x, y)["back"]
		// the two-step conversions against the direct ones
		two := func(dir, f, g conv) []int {
			a, b := dir(x, y)
			c, e := f(x, y)
			c, e = g(c, e)
			return []int{qz(a-c, 1e9), qz(b-e, 1e9)}
		}
		ev["wb"] = two(geo.WGS84toBD09, geo.WGS84toGCJ02, geo.GCJ02toBD09)
		ev["bw"] = two(geo.BD09toWGS84, geo.BD09toGCJ02, geo.GCJ02toWGS84)
	})
	d.one(ev)
}

func offsetGenSuite(d *driver) {
	f, err := os.Open(d.plan)
	if err != nil {
		panic(err)
	}
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		var b []int
		if err := json.Unmarshal(sc.Bytes(), &b); err != nil {
			panic(err)
		}
		d.offsetPos(b[0], b[1], b[2])
	}
}

func offsetSuite(d *driver) {
	pick := func(lo, hi, lim int) int {
		switch d.rnd.Intn(6) {
		case 0:
			return []int{lo, hi}[d.rnd.Intn(2)] + d.rnd.Intn(7) - 3
		case 1:
			return []int{lo, hi}[d.rnd.Intn(2)] + d.rnd.Intn(80001) - 40000
		case 2:
			return d.rnd.Intn(2*lim+1) - lim
		}
		return lo + d.rnd.Intn(hi-lo)
	}
	for t := 0; t < d.n; t++ {
		d.offsetPos(0, pick(147320000, 270100000, 360000000), pick(7720000, 107100000, 180000000))
	}
}
