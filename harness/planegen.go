package main

import (
	"bufio"
	"encoding/json"
	"math"
	"os"

	geo "github.com/hzw456/go-geo"
)

// The figures TLC generated from PlaneGen, calculated with by the library.
func init() { suites["planegen"] = planeGenSuite }

// behaviours reads the plan line by line.
func (d *driver) behaviours(f func([]byte)) {
	fl, err := os.Open(d.plan)
	if err != nil {
		panic(err)
	}
	defer fl.Close()
	sc := bufio.NewScanner(fl)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		f(sc.Bytes())
	}
}

func times(k int, ps []ip) []ip {
	r := []ip{}
	for _, p := range ps {
		r = append(r, ip{k * p[0], k * p[1]})
	}
	return r
}

func planeGenSuite(d *driver) {
	figs := [][]ip{}
	g := 0
	d.behaviours(func(b []byte) {
		var f []ip
		if err := json.Unmarshal(b, &f); err != nil {
			panic(err)
		}
		for _, p := range f {
			g = imax(g, imax(p[0], p[1])+1)
		}
		figs = append(figs, f)
	})
	grid := []ip{}
	for x := 0; x < g; x++ {
		for y := 0; y < g; y++ {
			grid = append(grid, ip{x, y})
		}
	}
	wide := func(lo, hi int) []ip {
		r := []ip{}
		for x := lo; x <= hi; x++ {
			for y := lo; y <= hi; y++ {
				r = append(r, ip{x, y})
			}
		}
		return r
	}
	turned := func(f []ip) iring { // any start, any direction
		r := rot(iclose(f), d.rnd.Intn(len(f)))
		if d.rnd.Intn(2) == 0 {
			r = rev(r)
		}
		return r
	}
	exact := func() place { return exactPlaces[d.rnd.Intn(len(exactPlaces))] }
	for _, f := range figs {
		f := f
		switch d.prop {
		case "G01":
			tab := [][]float64{{-2.5, 0, 7, 11}, {-1e300, -1, 3e9, math.MaxFloat64}, {0, 5e-324, 1, 1.5}}[d.rnd.Intn(3)]
			idx := func(x float64) int {
				for i, v := range tab {
					if v == x {
						return i
					}
				}
				return off
			}
			box := func(p, q ip) ([]int, *geo.Box) {
				x0, x1, y0, y1 := imin(p[0], q[0]), imax(p[0], q[0]), imin(p[1], q[1]), imax(p[1], q[1])
				return []int{x0, y0, x1, y1}, geo.NewBox(tab[x0], tab[y0], tab[x1], tab[y1])
			}
			for _, p := range grid {
				for _, q := range grid {
					if p[0] > q[0] || p[1] > q[1] {
						continue
					}
					ia, a := box(f[0], f[1])
					ib, b := box(p, q)
					pt := grid[d.rnd.Intn(len(grid))]
					ev := E{"op": "boxop", "a": ia, "b": ib, "p": pt, "u": []int{0, 0, 0, 0}, "after": [][]int{}, "iab": 0, "iba": 0, "cab": 0, "pin": 0}
					d.planeEv(ev, func() {
						bx := func(b *geo.Box) []int { return []int{idx(b.MinX), idx(b.MinY), idx(b.MaxX), idx(b.MaxY)} }
						ev["u"] = bx(a.Union(b))
						ev["after"] = [][]int{bx(a), bx(b)}
						ev["iab"], ev["iba"], ev["cab"] = b2i(a.Intersect(b)), b2i(b.Intersect(a)), b2i(a.Contain(b))
						ev["pin"] = b2i(geo.IsPointInBox(a, geo.Point{X: tab[pt[0]], Y: tab[pt[1]]}))
					})
				}
			}
		case "G02": // in half steps
			d.evPip(d.place(), ipoly{turned(times(2, f))}, wide(-1, 2*g-1))
		case "G03":
			ss := [][]ip{}
			for _, p := range grid {
				for _, q := range grid {
					ss = append(ss, []ip{f[0], f[1], p, q})
				}
			}
			d.evSegs(d.place(), ss)
		case "G04":
			d.evSelf(d.place(), iclose(f))
		case "G05":
			d.evPoly(exact(), ipoly{turned(f)})
		case "G06":
			d.evHull(d.place(), f)
		case "G07":
			for _, p := range grid {
				d.evP2seg(exact(), p, f[0], f[1])
			}
		case "G08":
			m := exact()
			t := d.rnd.Intn(6)
			d.evDP(m, f, t*t, 4, float64(t)/2*m.s)
		case "G10":
			d.evMbr(unitPlaces[d.rnd.Intn(len(unitPlaces))], d.rnd.Intn(2), f)
		case "G11":
			ss := [][]ip{}
			w := wide(-1, g)
			for _, p := range grid {
				for _, q := range grid {
					ss = append(ss, []ip{p, q})
				}
			}
			for k := 0; k < 40; k++ {
				ss = append(ss, []ip{w[d.rnd.Intn(len(w))], w[d.rnd.Intn(len(w))]})
			}
			d.evSegPoly(d.place(), ipoly{turned(f)}, ss)
		}
	}
}
