package main

// Integer shapes: the inputs of the planar suites.

type ip [2]int
type iring []ip    // closed
type ipoly []iring // shell first

func iorient(a, b, c ip) int {
	return (b[0]-a[0])*(c[1]-a[1]) - (c[0]-a[0])*(b[1]-a[1])
}
func isgn(x int) int {
	if x < 0 {
		return -1
	} else if x > 0 {
		return 1
	}
	return 0
}
func imin(a, b int) int {
	if a < b {
		return a
	}
	return b
}
func imax(a, b int) int {
	if a > b {
		return a
	}
	return b
}
func ionseg(a, b, p ip) bool {
	return iorient(a, b, p) == 0 && imin(a[0], b[0]) <= p[0] && p[0] <= imax(a[0], b[0]) &&
		imin(a[1], b[1]) <= p[1] && p[1] <= imax(a[1], b[1])
}
func imeet(a, b, c, d ip) bool {
	if isgn(iorient(a, b, c))*isgn(iorient(a, b, d)) == -1 && isgn(iorient(c, d, a))*isgn(iorient(c, d, b)) == -1 {
		return true
	}
	return ionseg(a, b, c) || ionseg(a, b, d) || ionseg(c, d, a) || ionseg(c, d, b)
}
func isimple(r iring) bool {
	n := len(r) - 1
	if n < 3 || r[0] != r[n] {
		return false
	}
	for i := 0; i < n; i++ {
		if r[i] == r[i+1] {
			return false
		}
	}
	for i := 0; i < n; i++ {
		for j := i + 1; j < n; j++ {
			a, b, c, d := r[i], r[i+1], r[j], r[j+1]
			if j == i+1 {
				if ionseg(a, b, d) || ionseg(c, d, a) {
					return false
				}
			} else if i == 0 && j == n-1 {
				if ionseg(a, b, c) || ionseg(c, d, b) {
					return false
				}
			} else if imeet(a, b, c, d) {
				return false
			}
		}
	}
	return true
}
func iarea2(r iring) int {
	s := 0
	for i := 0; i+1 < len(r); i++ {
		s += r[i][0]*r[i+1][1] - r[i+1][0]*r[i][1]
	}
	return s
}
func iin(r iring, p ip) int { // 0 out, 1 on, 2 in
	in := false
	for i := 0; i+1 < len(r); i++ {
		a, b := r[i], r[i+1]
		if ionseg(a, b, p) {
			return 1
		}
		if (a[1] > p[1]) != (b[1] > p[1]) {
			o := iorient(a, b, p)
			if (b[1] > a[1]) == (o > 0) {
				in = !in
			}
		}
	}
	if in {
		return 2
	}
	return 0
}
func iclose(pts []ip) iring {
	r := append(iring{}, pts...)
	return append(r, pts[0])
}
func rot(r iring, k int) iring {
	n := len(r) - 1
	q := iring{}
	for i := 0; i < n; i++ {
		q = append(q, r[(i+k)%n])
	}
	return append(q, q[0])
}
func rev(r iring) iring {
	q := make(iring, len(r))
	for i := range r {
		q[len(r)-1-i] = r[i]
	}
	return q
}
func (d *driver) pt(g int) ip { return ip{d.rnd.Intn(g + 1), d.rnd.Intn(g + 1)} }

// scramble picks a random start and direction.
func (d *driver) scramble(r iring) iring {
	r = rot(r, d.rnd.Intn(len(r)-1))
	if d.rnd.Intn(2) == 0 {
		r = rev(r)
	}
	return r
}

// simpleRing makes a random simple ring on [0,g]^2.
func (d *driver) simpleRing(g int) iring {
	for {
		var r iring
		switch d.rnd.Intn(6) {
		case 0, 1: // random few vertices
			n := 3 + d.rnd.Intn(5)
			pts := []ip{}
			for i := 0; i < n; i++ {
				pts = append(pts, d.pt(g))
			}
			r = iclose(pts)
		case 2: // comb / staircase: many vertices level with each other
			n := 2 + d.rnd.Intn(imax(1, g/2-1))
			pts := []ip{}
			for i := 0; i <= n && i <= g; i++ {
				pts = append(pts, ip{i, d.rnd.Intn(g/2 + 1)})
			}
			last := pts[len(pts)-1][0]
			for i := last; i >= 0; i-- {
				pts = append(pts, ip{i, g/2 + 1 + d.rnd.Intn(imax(1, g-g/2))})
			}
			if g/2+1 > g {
				continue
			}
			r = iclose(pts)
		case 3: // rectilinear steps
			x, y := 0, 0
			pts := []ip{{0, g}}
			for x < g && y < g {
				pts = append(pts, ip{x, y})
				x += 1 + d.rnd.Intn(imax(1, g/3))
				x = imin(x, g)
				pts = append(pts, ip{x, y})
				y += 1 + d.rnd.Intn(imax(1, g/3))
				y = imin(y, g)
			}
			pts = append(pts, ip{x, y}, ip{x, g})
			cl := []ip{}
			for i, p := range pts {
				if i == 0 || p != cl[len(cl)-1] {
					cl = append(cl, p)
				}
			}
			if len(cl) > 1 && cl[0] == cl[len(cl)-1] {
				cl = cl[:len(cl)-1]
			}
			if len(cl) < 3 {
				continue
			}
			r = iclose(cl)
		case 4: // grow: start from a triangle, pull edges to new points
			r = iclose([]ip{d.pt(g), d.pt(g), d.pt(g)})
			if !isimple(r) {
				continue
			}
			for k, n := 0, 3+d.rnd.Intn(8); k < n; k++ {
				i := d.rnd.Intn(len(r) - 1)
				q := append(iring{}, r[:i+1]...)
				q = append(q, d.pt(g))
				q = append(q, r[i+1:]...)
				if isimple(q) {
					r = q
				}
			}
		case 5: // rectangle with vertices in the middle of its edges
			x0, y0 := d.rnd.Intn(g-1), d.rnd.Intn(g-1)
			x1, y1 := x0+2+d.rnd.Intn(g-x0-1), y0+2+d.rnd.Intn(g-y0-1)
			x1, y1 = imin(x1, g), imin(y1, g)
			pts := []ip{{x0, y0}}
			if d.rnd.Intn(2) == 0 {
				pts = append(pts, ip{(x0 + x1) / 2, y0})
			}
			pts = append(pts, ip{x1, y0})
			if d.rnd.Intn(2) == 0 {
				pts = append(pts, ip{x1, (y0 + y1) / 2})
			}
			pts = append(pts, ip{x1, y1})
			if d.rnd.Intn(2) == 0 {
				pts = append(pts, ip{(x0 + x1) / 2, y1})
			}
			pts = append(pts, ip{x0, y1})
			r = iclose(pts)
		}
		if len(r) >= 4 && isimple(r) && iarea2(r) != 0 {
			return d.scramble(r)
		}
	}
}

// rarely: sizes beyond what the small figures reach.
func (d *driver) rarely() bool { return d.rnd.Intn(40) == 0 }

// bigRing makes a simple ring of many vertices: a band along x (or along y).
func (d *driver) bigRing() iring {
	w := 8 + d.rnd.Intn(37)
	if d.rnd.Intn(8) == 0 && d.prop != "G05" { // (its fractions would be too large)
		w += 60
	}
	pts := []ip{}
	for i := 0; i <= w; i++ {
		pts = append(pts, ip{i, d.rnd.Intn(4)})
	}
	for i := w; i >= 0; i-- {
		pts = append(pts, ip{i, 5 + d.rnd.Intn(4)})
	}
	if d.rnd.Intn(2) == 0 {
		for i, p := range pts {
			pts[i] = ip{p[1], p[0]}
		}
	}
	return d.scramble(iclose(pts))
}

// walk makes a line of n points, each near the one before; some walks jump now and then, or only at one end.
func (d *driver) walk(g, n int) []ip {
	p, mode := d.pt(g), d.rnd.Intn(4)
	r := []ip{p}
	for len(r) < n {
		q := ip{imin(g, imax(0, p[0]+d.rnd.Intn(3)-1)), imin(g, imax(0, p[1]+d.rnd.Intn(3)-1))}
		if mode == 1 && d.rnd.Intn(10) == 0 || mode == 2 && (len(r) == 1 || len(r) == n-1) {
			q = d.pt(g)
		}
		if q != p {
			r = append(r, q)
			p = q
		}
	}
	return r
}

// sieve makes a rectangle with many small holes, one in each cell of a grid.
func (d *driver) sieve() ipoly {
	nx, ny := 1+d.rnd.Intn(5), 1+d.rnd.Intn(4)
	p := ipoly{d.scramble(iclose([]ip{{0, 0}, {3*nx + 1, 0}, {3*nx + 1, 3*ny + 1}, {0, 3*ny + 1}}))}
	for x := 0; x < nx; x++ {
		for y := 0; y < ny; y++ {
			a, b := 3*x+1, 3*y+1
			var h iring
			switch d.rnd.Intn(5) {
			case 0:
				continue
			case 1:
				h = iclose([]ip{{a, b}, {a + 1, b}, {a + 1, b + 1}, {a, b + 1}})
			case 2:
				h = iclose([]ip{{a, b}, {a + 2, b + 1}, {a, b + 2}})
			case 3:
				h = iclose([]ip{{a + 1, b}, {a + 2, b + 1}, {a + 1, b + 2}, {a, b + 1}})
			case 4:
				h = iclose([]ip{{a, b}, {a + 2, b}, {a + 2, b + 2}, {a, b + 2}})
			}
			p = append(p, d.scramble(h))
		}
	}
	d.rnd.Shuffle(len(p)-1, func(i, j int) { p[i+1], p[j+1] = p[j+1], p[i+1] })
	return p
}

// extent is the largest coordinate of the shell.
func (p ipoly) extent() int {
	g := 0
	for _, v := range p[0] {
		g = imax(g, imax(v[0], v[1]))
	}
	return g
}

// simplePoly makes a simple polygon with up to maxHoles holes strictly inside and apart.
func (d *driver) simplePoly(g, maxHoles int) ipoly {
	if maxHoles > 0 && d.prop != "G05" && d.rnd.Intn(20) == 0 {
		return d.sieve()
	}
	shell := d.simpleRing(g)
	if maxHoles > 0 && d.rnd.Intn(2) == 0 { // a roomy shell
		shell = d.scramble(iclose([]ip{{0, 0}, {g, d.rnd.Intn(2)}, {g - d.rnd.Intn(2), g}, {d.rnd.Intn(2), g}}))
	}
	if d.rarely() {
		shell = d.bigRing()
	}
	p := ipoly{shell}
	for try := 0; try < 12*maxHoles && len(p)-1 < maxHoles; try++ {
		var h iring
		switch d.rnd.Intn(3) {
		case 0:
			c := d.pt(g - 1)
			s := 1 + d.rnd.Intn(3)
			h = iclose([]ip{c, {c[0] + s, c[1]}, {c[0] + s, c[1] + s}, {c[0], c[1] + s}})
		case 1:
			h = iclose([]ip{d.pt(g), d.pt(g), d.pt(g)})
		case 2:
			c := d.pt(g)
			s := 1 + d.rnd.Intn(2)
			h = iclose([]ip{{c[0] - s, c[1]}, {c[0], c[1] - s}, {c[0] + s, c[1]}, {c[0], c[1] + s}})
		}
		if !isimple(h) || iarea2(h) == 0 {
			continue
		}
		ok := true
		for _, v := range h {
			if iin(shell, v) != 2 {
				ok = false
			}
			for _, o := range p[1:] {
				if iin(o, v) != 0 {
					ok = false
				}
			}
		}
		for _, o := range p {
			for i := 0; ok && i+1 < len(o); i++ {
				if iin(h, o[i]) != 0 {
					ok = false
				}
				for j := 0; j+1 < len(h); j++ {
					if imeet(o[i], o[i+1], h[j], h[j+1]) {
						ok = false
					}
				}
			}
		}
		if ok {
			p = append(p, d.scramble(h))
		}
	}
	return p
}

func (d *driver) ptsOf(g, n int) []ip {
	r := make([]ip, n)
	for i := range r {
		r[i] = d.pt(g)
	}
	return r
}
