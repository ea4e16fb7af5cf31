package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"strings"

	geo "github.com/hzw456/go-geo"
)

func init() { suites["utm"] = utmSuite; suites["utmgen"] = utmGenSuite }

const udeg = 2000000 // half microdegrees in a degree

// uval is the double that stands for v half microdegrees: odd values lie just beside a limit.
func uval(v int) float64 {
	k, side := v/2, v%2
	x := float64(k) / 1e6
	switch side {
	case 1:
		return math.Nextafter(x, 1000)
	case -1:
		return math.Nextafter(x, -1000)
	}
	return x
}
func udiff(a, b, k float64) int { return qz(a-b, k) }

func (d *driver) utmPos(lat, lon int) {
	la, lo := uval(lat), uval(lon)
	ev := E{"op": "pos", "lat": lat, "lon": lon, "err": 9, "errn": 9, "zone": 0, "zonen": 0, "letter": "", "lettern": "", "same": 0,
		"byletter": []int{nan, nan}, "byhemi": []int{nan, nan}, "bylower": []int{nan, nan}, "east": 0, "north": 0}
	d.inflight(ev)
	d.call(func() {
		e, n, z, l, err := geo.FromLatLon(la, lo, false)
		e2, n2, z2, l2, err2 := geo.FromLatLon(la, lo, true)
		ev["err"], ev["errn"] = b2i(err != nil), b2i(err2 != nil)
		ev["zone"], ev["zonen"], ev["letter"], ev["lettern"] = z, z2, l, l2
		ev["same"] = b2i(e == e2 && n == n2)
		ev["east"], ev["north"] = qz(e, 100), qz(n, 100)
		if err == nil {
			back := func(a, b float64, err error) []int {
				if err != nil {
					return []int{nan, nan}
				}
				dl := b - lo
				if lo == 180 {
					dl = b + 180
				}
				return []int{qz(a-la, 1e9), qz(dl, 1e9)}
			}
			ev["byletter"] = back(geo.ToLatLon(e, n, z, l))
			ev["bylower"] = back(geo.ToLatLon(e, n, z, strings.ToLower(l)))
			ev["byhemi"] = back(geo.ToLatLon(e, n, z, "", lat >= 0))
		}
	})
	d.one(ev)
}

func utmGenSuite(d *driver) {
	f, err := os.Open(d.plan)
	if err != nil {
		panic(err)
	}
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		var b []int
		if err := json.Unmarshal(sc.Bytes(), &b); err != nil {
			panic(err)
		}
		d.utmPos(b[0], b[1])
	}
}

// ulat and ulon: anywhere in range, in whole microdegrees, limits often.
func (d *driver) ulat() int {
	if d.rnd.Intn(3) == 0 {
		l := []int{-80, -79, -72, -1, 0, 1, 8, 55, 56, 60, 63, 64, 71, 72, 75, 80, 83, 84}
		v := l[d.rnd.Intn(len(l))]*udeg + (d.rnd.Intn(41)-20)*2
		if v >= -80*udeg && v <= 84*udeg {
			return v
		}
	}
	return 2 * (d.rnd.Intn(164000001) - 80000000)
}
func (d *driver) ulon() int {
	switch d.rnd.Intn(4) {
	case 0:
		v := (d.rnd.Intn(121)*3-180)*udeg + (d.rnd.Intn(41)-20)*2
		if v >= -180*udeg && v <= 180*udeg {
			return v
		}
	case 1:
		return 2 * (d.rnd.Intn(44000001) - 1000000)
	}
	return 2 * (d.rnd.Intn(360000001) - 180000000)
}

func utmSuite(d *driver) {
	lats := []int{0, 1, 2, 3, 6}
	for t := 0; t < d.n; t++ {
		switch d.rnd.Intn(10) {
		case 0: // pairs in one zone
			lat, lon := d.ulat(), d.ulon()
			step := 10 + d.rnd.Intn(2000000)
			if d.rnd.Intn(2) == 0 {
				step = 10
			}
			dir := []string{"east", "north"}[d.rnd.Intn(2)]
			lat2, lon2 := lat, lon
			if dir == "east" {
				lon2 += 2 * step
			} else {
				lat2 += 2 * step
			}
			if lat2 > 84*udeg || lon2 >= 180*udeg {
				continue
			}
			ev := E{"op": "pair", "lat": lat, "lon": lon, "dir": dir, "step": step, "e1": 0, "n1": 0, "z1": 0, "e2": 0, "n2": 0, "z2": -1}
			d.inflight(ev)
			// whether they share a zone is decided by the standard limits, as plain arithmetic
			if usz(lat, lon) != usz(lat2, lon2) {
				continue
			}
			d.call(func() {
				e1, n1, z1, _, _ := geo.FromLatLon(uval(lat), uval(lon), false)
				e2, n2, z2, _, _ := geo.FromLatLon(uval(lat2), uval(lon2), false)
				ev["e1"], ev["n1"], ev["z1"] = qz(e1, 100), qz(n1, 100), z1
				ev["e2"], ev["n2"], ev["z2"] = qz(e2, 100), qz(n2, 100), z2
			})
			d.one(ev)
		case 1: // mirror images, in plain zones
			z := 1 + d.rnd.Intn(60)
			lat := (d.rnd.Intn(55999999) + 1)
			dl := d.rnd.Intn(2999999)
			cm := 6*z - 183
			ev := E{"op": "mirror", "zone": z, "lat": 2 * lat, "dl": dl, "e": 0, "n": 0, "es": 1, "ns": 0, "ew": 0, "nw": 0}
			d.inflight(ev)
			d.call(func() {
				y, x := float64(lat)/1e6, float64(dl)/1e6
				e, n, _, _, _ := geo.FromLatLon(y, float64(cm)+x, false)
				es, ns, _, _, _ := geo.FromLatLon(-y, float64(cm)+x, false)
				ew, nw, _, _, _ := geo.FromLatLon(y, float64(cm)-x, false)
				ev["e"], ev["n"], ev["es"], ev["ns"], ev["ew"], ev["nw"] = qz(e, 100), qz(n, 100), qz(es, 100), qz(ns, 100), qz(ew, 100), qz(nw, 100)
			})
			d.one(ev)
		case 2, 3: // the projection's table
			row, col := 1+d.rnd.Intn(22), 1+d.rnd.Intn(5)
			z := 1 + d.rnd.Intn(60)
			la, south := (row-1)*4, 0
			if la <= 80 && la > 0 && d.rnd.Intn(2) == 0 {
				south = 1
			}
			sg := 1 - 2*d.rnd.Intn(2)
			if south == 0 && la >= 72 && col == 5 {
				z = []int{33, 35}[d.rnd.Intn(2)]
				sg = -1
			} else if south == 0 && la >= 56 && la < 64 && col == 5 {
				z, sg = 32, -1
			} else if col == 5 {
				col = 1 + d.rnd.Intn(4)
			}
			lon := 6*z - 183 + sg*lats[col-1]
			lat := la
			if south == 1 {
				lat = -la
			}
			if usz(lat*udeg, lon*udeg) != z {
				continue
			}
			if lon == 180 {
				continue
			}
			ev := E{"op": "table", "row": row, "col": col, "z": z, "sg": sg, "south": south, "lon": lon, "err": 9, "zone": 0, "east": 0, "north": 0}
			d.inflight(ev)
			d.call(func() {
				e, n, zo, _, err := geo.FromLatLon(float64(lat), float64(lon), false)
				ev["err"], ev["zone"], ev["east"], ev["north"] = b2i(err != nil), zo, qz(e, 100), qz(n, 100)
			})
			d.one(ev)
		case 4: // refusals when converting back
			letters := []string{"", "", "C", "D", "H", "J", "M", "N", "P", "X", "A", "B", "I", "O", "Y", "Z", "1", " ", "["}
			hemis := []string{"", "", "N", "S"}
			pick := func(l []int) int { return l[d.rnd.Intn(len(l))] }
			east := pick([]int{100000000, 100000000, 60000000 + 2*d.rnd.Intn(60000000), 20000000, 19999999, 20000001, 199999999, 200000000, 200000001, 0, -100000000, 210000000})
			north := pick([]int{1000000000, 2 * d.rnd.Intn(1000000000), 0, -1, 1, 2000000000, 1999999999, 2000000001, -10000000, 2050000000})
			zone := pick([]int{1, 60, 30, 1 + d.rnd.Intn(60), 0, 61, -1, 1000})
			l, h := letters[d.rnd.Intn(len(letters))], hemis[d.rnd.Intn(len(hemis))]
			if d.rnd.Intn(2) == 0 { // one thing wrong at most
				keep := d.rnd.Intn(4)
				if keep != 0 {
					east = 100000000
				}
				if keep != 1 {
					north = 1000000000
				}
				if keep != 2 {
					zone = 31
				}
				if keep != 3 {
					l, h = "N", ""
				}
			}
			uv := func(v int) float64 {
				k, s := v/2, v%2
				x := float64(k) / 100
				if s > 0 {
					return math.Nextafter(x, 1e9)
				} else if s < 0 {
					return math.Nextafter(x, -1e9)
				}
				return x
			}
			ev := E{"op": "to", "east": east, "north": north, "zone": zone, "letter": l, "hemi": h, "err": 9}
			d.inflight(ev)
			d.call(func() {
				var err error
				l := l
				if d.rnd.Intn(3) == 0 { // the case of the letter makes no difference
					l = strings.ToLower(l)
				}
				if h == "" {
					_, _, err = geo.ToLatLon(uv(east), uv(north), zone, l)
				} else {
					_, _, err = geo.ToLatLon(uv(east), uv(north), zone, l, h == "N")
				}
				ev["err"] = b2i(err != nil)
			})
			d.one(ev)
		case 5: // not in range by far, or not numbers
			bad := []float64{math.NaN(), math.Inf(1), math.Inf(-1), 84.5, -80.5, 90, -90, 1e18}
			badl := []float64{math.NaN(), math.Inf(1), math.Inf(-1), 180.5, -180.5, 360, 1e18}
			a, b := bad[d.rnd.Intn(len(bad))], badl[d.rnd.Intn(len(badl))]
			ev := E{"op": "nan", "a": fmt.Sprint(a), "b": fmt.Sprint(b), "errs": []int{0}}
			d.inflight(ev)
			d.call(func() {
				er := func(_, _ float64, _ int, _ string, err error) int { return b2i(err != nil) }
				et := func(_, _ float64, err error) int { return b2i(err != nil) }
				x := []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[d.rnd.Intn(3)]
				ev["errs"] = []int{er(geo.FromLatLon(a, 10, false)), er(geo.FromLatLon(10, b, true)), er(geo.FromLatLon(a, b, false)),
					et(geo.ToLatLon(x, 100000, 31, "N")), et(geo.ToLatLon(500000, x, 31, "N")), b2i(geo.ValidateLatLone(a, 10) != nil), b2i(geo.ValidateLatLone(10, b) != nil)}
			})
			d.one(ev)
		default:
			d.utmPos(d.ulat()+d.rnd.Intn(3)-1, d.ulon()+d.rnd.Intn(3)-1)
		}
	}
}

// usz labels inputs only: two positions with the same label are in one zone.
func usz(lat, lon int) int {
	in := func(v, a, b int) bool { return a*udeg <= v && v < b*udeg }
	if in(lat, 56, 64) && in(lon, 3, 12) {
		return 32
	}
	if lat >= 72*udeg && in(lon, 0, 42) {
		return []int{31, 31, 31, 33, 33, 33, 33, 35, 35, 35, 35, 37, 37, 37}[lon/(3*udeg)]
	}
	return (lon+180*udeg)/(6*udeg) + 1
}
