package main

import (
	"bufio"
	"encoding/json"
	"math"
	"math/big"
	"os"
	"regexp"
	"strings"

	geo "github.com/hzw456/go-geo"
	"github.com/hzw456/go-geo/wkt"
)

// Tokens: 1-6 the keywords, 7 another upper-case word, 8 a word that is a keyword but
// for its case, 9 EMPTY, 10 ( 11 ) 12 , 13 blank, 14 a word that is no number,
// 100+i the i-th number of the event's table.
var kw = []string{"", "POINT", "MULTIPOINT", "LINESTRING", "MULTILINESTRING", "POLYGON", "MULTIPOLYGON"}
var kwIdx = map[string]int{"POINT": 1, "MULTIPOINT": 2, "LINESTRING": 3, "MULTILINESTRING": 4, "POLYGON": 5, "MULTIPOLYGON": 6}
var badKw = []string{"CIRCLE", "POINTZ", "POIN", "GEOMETRYCOLLECTION", "LINE", "MULTI", "POLYGONE", "RING"}
var lowKw = []string{"point", "Point", "linestring", "LineString", "polygon", "Polygon", "multipolygon"}
var badWord = []string{"abc", "1a", "1.2.3", "--1", "1e", "-", ".", "1-2", "e5", "$", "1;2", "0x", "1,5e", "O"}

// numbers of the plain table are further apart than the coordinate tolerance
var plain = []string{"0", "1", "-1", "2.5", "-7.25", "116.397", "39.9", "1e3", "-1.5E-2", "100000000", "0.001", "-180", "3.14159265358979", "12345.6789", "1e300", "9007199254740993", "0.5", "-0.75", "1e+2", "2.5E+1", "-4e+0"}

func litBits(s string) uint64 {
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		return 0x7ff8dead00000000
	}
	f, _ := r.Float64()
	b := math.Float64bits(f)
	if f == 0 && strings.HasPrefix(s, "-") {
		b = 1 << 63
	}
	return b
}

// nums numbers values by their bits.
type nums struct {
	bits []uint64
	idx  map[uint64]int
}

func (t *nums) of(b uint64) int {
	if n, ok := t.idx[b]; ok {
		return n
	}
	t.bits = append(t.bits, b)
	t.idx[b] = len(t.bits)
	return len(t.bits)
}
func (t *nums) f(x float64) int { return t.of(math.Float64bits(x)) }

// geomVal lists a geometry: its kind, dimension and nested positions as table numbers.
func geomVal(t *nums, g geo.Geometry) E {
	a := func(p geo.Point) []int { return []int{t.f(p.X), t.f(p.Y)} }
	az := func(p geo.PointZ) []int { return []int{t.f(p.X), t.f(p.Y), t.f(p.Z)} }
	l := func(ps []geo.Point) [][]int {
		r := [][]int{}
		for _, p := range ps {
			r = append(r, a(p))
		}
		return r
	}
	lz := func(ps []geo.PointZ) [][]int {
		r := [][]int{}
		for _, p := range ps {
			r = append(r, az(p))
		}
		return r
	}
	e := func(kind, dim int, v interface{}) E { return E{"kind": kind, "dim": dim, "v": v} }
	switch g := g.(type) {
	case geo.Point:
		return e(1, 2, a(g))
	case geo.PointZ:
		return e(1, 3, az(g))
	case geo.MultiPoint:
		return e(2, 2, l(g))
	case geo.MultiPointZ:
		return e(2, 3, lz(g))
	case geo.LineString:
		return e(3, 2, l(g))
	case geo.LineStringZ:
		return e(3, 3, lz(g))
	case geo.MultiLineString:
		r := [][][]int{}
		for _, x := range g {
			r = append(r, l(x))
		}
		return e(4, 2, r)
	case geo.MultiLineStringZ:
		r := [][][]int{}
		for _, x := range g {
			r = append(r, lz(x))
		}
		return e(4, 3, r)
	case geo.Polygon:
		r := [][][]int{}
		for _, x := range g {
			r = append(r, l(x))
		}
		return e(5, 2, r)
	case geo.PolygonZ:
		r := [][][]int{}
		for _, x := range g {
			r = append(r, lz(x))
		}
		return e(5, 3, r)
	case geo.MultiPolygon:
		r := [][][][]int{}
		for _, p := range g {
			q := [][][]int{}
			for _, x := range p {
				q = append(q, l(x))
			}
			r = append(r, q)
		}
		return e(6, 2, r)
	case geo.MultiPolygonZ:
		r := [][][][]int{}
		for _, p := range g {
			q := [][][]int{}
			for _, x := range p {
				q = append(q, lz(x))
			}
			r = append(r, q)
		}
		return e(6, 3, r)
	}
	return e(0, 0, []int{})
}

func (d *driver) coordinate() float64 {
	switch d.rnd.Intn(9) {
	case 0:
		for {
			f := math.Float64frombits(d.rnd.Uint64())
			if !math.IsNaN(f) && !math.IsInf(f, 0) {
				return f
			}
		}
	case 1:
		return []float64{0, math.Copysign(0, -1), 5e-324, -5e-324, math.MaxFloat64, -math.MaxFloat64, 1e21, -1e21, 1e-7, 123456789.123456789, 1 << 53, 1<<53 + 2, 0.1, 1. / 3, 2.2250738585072014e-308}[d.rnd.Intn(15)]
	case 2:
		return float64(d.rnd.Intn(21) - 10)
	case 3:
		return math.Ldexp(d.rnd.Float64(), d.rnd.Intn(80)-40)
	}
	return d.rnd.Float64()*360 - 180
}

// randGeom is a random geometry of a kind and dimension with closed rings; minPts is
// the least number of points of a line.
func (d *driver) randGeom(kind, dim, size int) geo.Geometry {
	c := d.coordinate
	n := func(min int) int {
		if d.rnd.Intn(40) == 0 {
			if d.rnd.Intn(8) == 0 { // some hundreds
				return 100 + d.rnd.Intn(600)
			}
			return min + d.rnd.Intn(size*20+1)
		}
		return min + d.rnd.Intn(size+1)
	}
	pts := func(min int) []geo.Point {
		r := []geo.Point{}
		for k := n(min); k > 0; k-- {
			if len(r) > 0 && d.rnd.Intn(6) == 0 {
				r = append(r, r[d.rnd.Intn(len(r))])
			} else {
				r = append(r, geo.Point{X: c(), Y: c()})
			}
		}
		return r
	}
	ptz := func(min int) []geo.PointZ {
		r := []geo.PointZ{}
		for k := n(min); k > 0; k-- {
			if len(r) > 0 && d.rnd.Intn(6) == 0 {
				r = append(r, r[d.rnd.Intn(len(r))])
			} else {
				r = append(r, geo.PointZ{X: c(), Y: c(), Z: c()})
			}
		}
		return r
	}
	nearly := func(x float64) float64 { // a ring may end beside its first point
		if d.prop[0] != 'J' { // well-formed text has closed rings
			return x
		}
		switch d.rnd.Intn(24) {
		case 0:
			return math.Nextafter(x, 0)
		case 1:
			return x + 1e-7
		}
		return x
	}
	ring := func() geo.LinearRing {
		p := pts(1)
		return append(p, geo.Point{X: nearly(p[0].X), Y: p[0].Y})
	}
	ringz := func() geo.LinearRingZ {
		p := ptz(1)
		return append(p, geo.PointZ{X: p[0].X, Y: p[0].Y, Z: nearly(p[0].Z)})
	}
	parts := func() int {
		if size <= 1 && d.rnd.Intn(200) == 0 {
			return 100 + d.rnd.Intn(400)
		}
		if d.rnd.Intn(30) == 0 { // many parts
			return 1 + d.rnd.Intn(40)
		}
		return 1 + d.rnd.Intn(3)
	}
	z := dim == 3
	switch kind {
	case 1:
		if z {
			return geo.PointZ{X: c(), Y: c(), Z: c()}
		}
		return geo.Point{X: c(), Y: c()}
	case 2:
		if z {
			return geo.MultiPointZ(ptz(1))
		}
		return geo.MultiPoint(pts(1))
	case 3:
		if z {
			return geo.LineStringZ(ptz(2))
		}
		return geo.LineString(pts(2))
	case 4:
		if z {
			r := geo.MultiLineStringZ{}
			for k := parts(); k > 0; k-- {
				r = append(r, ptz(2))
			}
			return r
		}
		r := geo.MultiLineString{}
		for k := parts(); k > 0; k-- {
			r = append(r, pts(2))
		}
		return r
	case 5:
		if z {
			r := geo.PolygonZ{}
			for k := parts(); k > 0; k-- {
				r = append(r, ringz())
			}
			return r
		}
		r := geo.Polygon{}
		for k := parts(); k > 0; k-- {
			r = append(r, ring())
		}
		return r
	}
	if z {
		r := geo.MultiPolygonZ{}
		for k := parts(); k > 0; k-- {
			r = append(r, d.randGeom(5, 3, size).(geo.PolygonZ))
		}
		return r
	}
	r := geo.MultiPolygon{}
	for k := parts(); k > 0; k-- {
		r = append(r, d.randGeom(5, 2, size).(geo.Polygon))
	}
	return r
}

var lexer = regexp.MustCompile(`[A-Za-z]+|[(),]| +|[^(), ]+`)
var isNum = regexp.MustCompile(`^-?[0-9]+(\.[0-9]+)?([eE][-+]?[0-9]+)?$`)

// lex turns a text the code wrote into tokens.
func lex(t *nums, s string) []int {
	r := []int{}
	for _, w := range lexer.FindAllString(s, -1) {
		switch {
		case w == "(":
			r = append(r, 10)
		case w == ")":
			r = append(r, 11)
		case w == ",":
			r = append(r, 12)
		case strings.Trim(w, " ") == "":
			r = append(r, 13)
		case kwIdx[w] > 0:
			r = append(r, kwIdx[w])
		case isNum.MatchString(w):
			r = append(r, 100+t.of(litBits(w)))
		default:
			r = append(r, 14)
		}
	}
	return r
}

func isNilGeom(g geo.Geometry) bool { return g == nil }

func (d *driver) w01() {
	kind, dim := 1+d.rnd.Intn(6), 2+d.rnd.Intn(2)
	g := d.randGeom(kind, dim, []int{0, 1, 3, 6}[d.rnd.Intn(4)])
	t := &nums{idx: map[uint64]int{}}
	ev := E{"op": "encode", "g": geomVal(t, g), "toks": []int{}, "err": 1, "back": E{"kind": 0, "dim": 0, "v": []int{}}}
	d.planeEv(ev, func() {
		s := wkt.Encode(g)
		ev["toks"] = lex(t, s)
		b, err := wkt.Decode(s)
		ev["err"] = e2i(err)
		if err == nil {
			ev["back"] = geomVal(t, b)
		}
	})
}

func render(d *driver, toks []int, lits []string) string {
	var sb strings.Builder
	word := false
	blank := []string{" "}
	if d.rnd.Intn(4) == 0 { // a text over several lines
		blank = []string{" ", "\n", "\t", "\r\n", "\n  ", " \n"}
	}
	white := func() string { return blank[d.rnd.Intn(len(blank))] }
	for _, t := range toks {
		w := ""
		isWord := false
		switch {
		case t >= 100:
			w, isWord = lits[t-101], true
		case t == 14:
			w, isWord = badWord[d.rnd.Intn(len(badWord))], true
			if strings.Contains(w, ",") {
				w = "1x"
			}
		case t == 10:
			w = "("
		case t == 11:
			w = ")"
		case t == 12:
			w = ","
		case t == 13:
			w = white()
		case t == 9:
			w, isWord = "EMPTY", true
		case t == 8:
			w, isWord = lowKw[d.rnd.Intn(len(lowKw))], true
		case t == 7:
			w, isWord = badKw[d.rnd.Intn(len(badKw))], true
		default:
			w, isWord = kw[t], true
		}
		if word && isWord {
			sb.WriteString(white())
		}
		sb.WriteString(w)
		word = isWord
	}
	return sb.String()
}

// wf makes the tokens of a well-formed text.
func (d *driver) wf(kind, dim, nlit int) []int {
	pos := func() []int {
		r := []int{}
		for k := 0; k < dim; k++ {
			r = append(r, 101+d.rnd.Intn(nlit))
		}
		return r
	}
	list := func(n int, item func() []int) []int {
		r := []int{10}
		for k := 0; k < n; k++ {
			if k > 0 {
				r = append(r, 12)
			}
			r = append(r, item()...)
		}
		return append(r, 11)
	}
	large := false
	n := func(min int) int {
		if !large && d.rnd.Intn(1500) == 0 { // some hundreds, at one place
			large = true
			return 100 + d.rnd.Intn(250)
		}
		if d.rnd.Intn(40) == 0 { // many
			return min + d.rnd.Intn(40)
		}
		return min + d.rnd.Intn(3)
	}
	line := func() []int { return list(n(2), pos) }
	poly := func() []int { return list(n(1), line) }
	switch kind {
	case 1:
		return append([]int{1}, list(1, pos)...)
	case 2:
		return append([]int{2}, list(n(1), func() []int {
			if d.rnd.Intn(2) == 0 {
				return append(append([]int{10}, pos()...), 11)
			}
			return pos()
		})...)
	case 3:
		return append([]int{3}, line()...)
	case 4, 5:
		return append([]int{kind}, list(n(1), line)...)
	}
	return append([]int{6}, list(n(1), poly)...)
}

func (d *driver) edit(t []int, nlit int) []int {
	rt := func() int {
		return []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 10, 11, 11, 12, 12, 14, 101, 102, 101 + d.rnd.Intn(nlit), 101 + d.rnd.Intn(nlit)}[d.rnd.Intn(20)]
	}
	i := d.rnd.Intn(len(t))
	r := append([]int{}, t...)
	switch d.rnd.Intn(6) {
	case 0:
		return append(r[:i], r[i+1:]...)
	case 1:
		return append(r[:i+1], t[i:]...)
	case 2:
		return append(append(r[:i], rt()), t[i:]...)
	case 3:
		r[i] = rt()
	case 4:
		j := d.rnd.Intn(len(t))
		r[i], r[j] = r[j], r[i]
	case 5:
		return r[:i+1]
	}
	return r
}

func (d *driver) blanks(t []int) []int {
	r := []int{}
	odd := d.rnd.Intn(8) == 0
	p := d.rnd.Intn(3)
	for i, x := range t {
		near := x == 10 || x == 11 || (i > 0 && (t[i-1] == 10 || t[i-1] == 11 || t[i-1] == 12))
		if (near || odd) && d.rnd.Intn(4) < p {
			for k := 1 + d.rnd.Intn(2); k > 0; k-- {
				r = append(r, 13)
			}
		}
		r = append(r, x)
	}
	if d.rnd.Intn(6) == 0 {
		r = append(r, 13)
	}
	return r
}

func (d *driver) w02(toks []int, lits []string) {
	if len(toks) == 0 {
		return
	}
	t := &nums{idx: map[uint64]int{}}
	for _, l := range lits {
		t.of(litBits(l))
	}
	s := render(d, toks, lits)
	ev := E{"op": "decode", "toks": toks, "text": s, "err": 1, "back": E{"kind": 0, "dim": 0, "v": []int{}}, "nil": 0}
	d.planeEv(ev, func() {
		g, err := wkt.Decode(s)
		ev["err"] = e2i(err)
		if err == nil {
			ev["nil"] = b2i(isNilGeom(g))
			ev["back"] = geomVal(t, g)
		}
	})
}

// w02raw is about totality alone.
func (d *driver) w02raw() {
	s := ""
	switch d.rnd.Intn(4) {
	case 0: // bytes
		b := make([]byte, d.rnd.Intn(30))
		for i := range b {
			b[i] = byte(d.rnd.Intn(256))
		}
		s = string(b)
	case 1: // the grammar's characters
		al := "PO INT(),  01.-e\tZM\n()(,"
		for k := d.rnd.Intn(40); k > 0; k-- {
			s += string(al[d.rnd.Intn(len(al))])
		}
		s = kw[1+d.rnd.Intn(6)] + "(" + s + ")"
	case 2: // brackets, deep
		k := d.rnd.Intn(200)
		s = kw[1+d.rnd.Intn(6)] + strings.Repeat("(", k) + "1 2" + strings.Repeat(")", k+d.rnd.Intn(3)-1+b2i(k == 0))
	case 3: // a well-formed text with a byte changed
		b := []byte(render(d, d.wf(1+d.rnd.Intn(6), 2+d.rnd.Intn(2), len(plain)), plain))
		b[d.rnd.Intn(len(b))] = byte(d.rnd.Intn(256))
		s = string(b)
	}
	ev := E{"op": "raw", "text": s, "err": 0, "nil": 0}
	d.planeEv(ev, func() {
		g, err := wkt.Decode(s)
		ev["err"] = e2i(err)
		ev["nil"] = b2i(isNilGeom(g))
		// the decoders of one kind are total too
		in := s
		if k := strings.Index(s, "("); k >= 0 && d.rnd.Intn(2) == 0 {
			in = strings.TrimSuffix(s[k+1:], ")")
		}
		for _, f := range []func(string) (geo.Geometry, error){wkt.PointFromWKT, wkt.MultiPointFromWKT, wkt.LineStringFromWKT, wkt.MultiLineStringFromWKT, wkt.PolygonFromWKT, wkt.MultiPolygonFromWKT} {
			if g, err := f(in); err == nil && isNilGeom(g) {
				ev["nil"], ev["err"] = 1, 0
			}
		}
	})
}

func init() {
	suites["wkt"] = func(d *driver) {
		for d.nev < d.n {
			if d.prop == "W01" {
				d.w01()
				continue
			}
			if d.prop == "" && d.rnd.Intn(3) == 0 {
				d.w01()
				continue
			}
			if d.rnd.Intn(8) == 0 {
				d.w02raw()
				continue
			}
			lits := append([]string{}, plain...)
			d.rnd.Shuffle(len(lits), func(i, j int) { lits[i], lits[j] = lits[j], lits[i] })
			lits = lits[:3+d.rnd.Intn(8)]
			t := d.wf(1+d.rnd.Intn(6), 2+d.rnd.Intn(2), len(lits))
			for k := []int{0, 0, 1, 1, 1, 2, 3}[d.rnd.Intn(7)]; k > 0 && len(t) > 0; k-- {
				t = d.edit(t, len(lits))
			}
			if len(t) == 0 {
				continue
			}
			if d.rnd.Intn(3) > 0 {
				t = d.blanks(t)
			}
			d.w02(t, lits)
		}
	}
	suites["wktgen"] = func(d *driver) {
		f, err := os.Open(d.plan)
		if err != nil {
			panic(err)
		}
		defer f.Close()
		sc := bufio.NewScanner(f)
		for sc.Scan() {
			var p struct {
				Toks []int `json:"toks"`
			}
			if err := json.Unmarshal(sc.Bytes(), &p); err != nil {
				panic(err)
			}
			d.w02(p.Toks, plain)
		}
	}
}
