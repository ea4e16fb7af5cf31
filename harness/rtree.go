package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"reflect"
	"sort"
	"strings"
	"sync"

	geo "github.com/hzw456/go-geo"
)

// item is one object of a history's universe, built afresh on every use so that
// nothing but its value identifies it.
type item struct {
	kind  int
	parts [][]ip
	id    string
	idn   int
	props int
	rid   bool // stored through the random-identifier calls
	box   [4]int
	like  int // 1 + the object it is a near copy of; 0: none
}

// another makes a near copy: one thing changed, and as little of it as possible.
func (d *driver) another(it item, name func(int) string, nid int) item {
	ps := [][]ip{}
	for _, p := range it.parts {
		ps = append(ps, append([]ip{}, p...))
	}
	it.parts = ps
	if d.rnd.Intn(4) == 0 { // as many positions from the same first one on, further out or less far
		k := d.rnd.Intn(len(it.parts))
		p := it.parts[k]
		dx, dy := d.rnd.Intn(4), d.rnd.Intn(4)
		for i, q := range p {
			if q[0] != p[0][0] {
				p[i][0] += dx
			}
			if q[1] != p[0][1] {
				p[i][1] += dy
			}
		}
		return it
	}
	switch d.rnd.Intn(5) {
	case 0: // the same positions as another kind
		switch it.kind {
		case 0:
			it.kind = 3
		case 1:
			it.kind = 3
		case 3:
			it.kind = []int{0, 1}[b2i(len(it.parts[0]) > 1)]
		case 2:
			it.kind = []int{4, 5, 1}[d.rnd.Intn(3)]
		case 5:
			it.kind = 4
		case 4:
			if len(it.parts) == 1 {
				it.kind = 1
			}
		}
	case 1: // the same positions in another order
		k := d.rnd.Intn(len(it.parts))
		p := it.parts[k]
		for i, j := 0, len(p)-1; i < j; i, j = i+1, j-1 {
			p[i], p[j] = p[j], p[i]
		}
		if len(it.parts) > 1 && d.rnd.Intn(2) == 0 {
			it.parts[0], it.parts[k] = it.parts[k], it.parts[0]
		}
	case 2:
		it.id = name(d.rnd.Intn(nid))
	case 3:
		it.props = []int{1, 5, 4, 6, 0, 2, 3, 7}[d.rnd.Intn(8)]
		if d.rnd.Intn(2) == 0 { // looks the same
			it.props = map[int]int{1: 5, 5: 1, 4: 6, 6: 4}[it.props]
		}
	default: // a position more
		k := d.rnd.Intn(len(it.parts))
		p := it.parts[k]
		if it.kind == 1 || it.kind == 3 {
			it.parts[k] = append(p, p[len(p)-1])
		}
	}
	return it
}

// around is a closed rectangle with more positions on its sides.
func (d *driver) around(p, q ip, more int) []ip {
	cs := []ip{p, {q[0], p[1]}, q, {p[0], q[1]}, p}
	r := []ip{p}
	for i := 0; i < 4; i++ {
		a, b := cs[i], cs[i+1]
		for k := d.rnd.Intn(more + 1); k > 0; k-- { // on the side, or its start again
			r = append(r, ip{a[0] + (b[0]-a[0])/(k+1), a[1] + (b[1]-a[1])/(k+1)})
		}
		r = append(r, b)
	}
	return r
}

type world struct {
	m     place
	items []item
	ids   map[string]int
	names []string
	canon []geo.Spatial // the universe, to recognise objects by value
}

func (it *item) geom(m place) geo.Geometry {
	switch it.kind {
	case 0:
		return m.pt(it.parts[0][0])
	case 1:
		return m.line(it.parts[0])
	case 2:
		return m.poly(ipoly{iring(it.parts[0])})
	case 3:
		return geo.MultiPoint(m.pts(it.parts[0]))
	case 4:
		r := geo.MultiLineString{}
		for _, p := range it.parts {
			r = append(r, m.line(p))
		}
		return r
	default:
		r := geo.MultiPolygon{}
		for _, p := range it.parts {
			r = append(r, m.poly(ipoly{iring(p)}))
		}
		return r
	}
}

func (w *world) spatial(i int) geo.Spatial {
	it := &w.items[i]
	s := geo.Spatial{ID: it.id, Geom: it.geom(w.m)}
	switch it.props {
	case 1:
		s.Properties = 7
	case 2:
		s.Properties = "x"
	case 3:
		s.Properties = map[string]interface{}{"a": []interface{}{1.5, "b"}}
	case 4:
		s.Properties = []int{1, 2}
	case 5:
		s.Properties = "7"
	case 6:
		s.Properties = []string{"1", "2"}
	case 7:
		s.Properties = geo.Point{X: 1, Y: 2}
	}
	return s
}

// which universe object is this (1-based; 0: none of them)
func (w *world) which(s geo.Spatial) int {
	for i := range w.items {
		it := &w.items[i]
		if it.rid {
			if s.Properties == nil && reflect.DeepEqual(s.Geom, w.canon[i].Geom) {
				return i + 1
			}
		} else if s.ID == it.id && reflect.DeepEqual(s, w.canon[i]) {
			return i + 1
		}
	}
	return 0
}
func (w *world) whichAll(ss []geo.Spatial) []int {
	r := []int{}
	for _, s := range ss {
		r = append(r, w.which(s))
	}
	return r
}
func (w *world) box(b [4]int) *geo.Box {
	lo, hi := w.m.pt(ip{b[0], b[1]}), w.m.pt(ip{b[2], b[3]})
	return geo.NewBox(lo.X, lo.Y, hi.X, hi.Y)
}
func (w *world) idn(id string) int {
	if n, ok := w.ids[id]; ok {
		return n
	}
	w.ids[id] = len(w.ids) + 1
	w.names = append(w.names, id)
	return w.ids[id]
}
func (w *world) unbox(b *geo.Box) []int {
	if b == nil {
		return []int{off, off, off, off}
	}
	lo, hi := w.m.back(geo.Point{X: b.MinX, Y: b.MinY}), w.m.back(geo.Point{X: b.MaxX, Y: b.MaxY})
	return []int{lo[0], lo[1], hi[0], hi[1]}
}

func (w *world) ready() {
	for i := range w.items {
		w.items[i].idn = w.idn(w.items[i].id)
		w.canon = append(w.canon, w.spatial(i))
	}
}

func boxOfParts(ps [][]ip) [4]int {
	b := [4]int{math.MaxInt32, math.MaxInt32, math.MinInt32, math.MinInt32}
	for _, p := range ps {
		for _, q := range p {
			b = [4]int{imin(b[0], q[0]), imin(b[1], q[1]), imax(b[2], q[0]), imax(b[3], q[1])}
		}
	}
	return b
}

func (d *driver) newWorld(n int) *world {
	w := &world{m: d.anyPlace(), ids: map[string]int{}}
	if d.rnd.Intn(5) == 0 { // sizes and squares of distances out of a float64's range
		w.m = place{math.Ldexp(1, []int{-1060, -500, 500, 600, 1000}[d.rnd.Intn(5)]), 0, 0}
	}
	g := []int{2, 4, 10, 40, 200}[d.rnd.Intn(5)]
	mode := d.rnd.Intn(8) // 0: on a line, 1: points only, 2: many equal boxes, else mixed
	nid := 1 + d.rnd.Intn(n+2)
	if d.rnd.Intn(4) == 0 {
		nid = 1 + d.rnd.Intn(3)
	}
	seen := map[string]bool{}
	alike := d.rnd.Intn(4) == 0
	name := func(k int) string { return fmt.Sprintf("id%d", k) }
	if d.rnd.Intn(5) == 0 { // names that are nearly the same
		name = func(k int) string {
			return []string{"id", "ID", "Id", " id", "id ", "id1", "id01", "i", "iD\x00", "ıd", "1", "01", "1.0", "+1", "K", "k", "\u212a", "é", "e\u0301", "null"}[k%20] + strings.Repeat("_", k/20)
		}
	}
	for tries := 0; len(w.items) < n && tries < 20*n; tries++ {
		var it item
		p := d.pt(g)
		if mode == 0 {
			p[1] = 0
		}
		if mode == 2 && len(w.items) > 0 && d.rnd.Intn(2) == 0 {
			o := w.items[d.rnd.Intn(len(w.items))]
			it = o
		} else {
			it.kind = d.rnd.Intn(6)
			if mode == 1 || (mode > 4 && d.rnd.Intn(2) == 0) {
				it.kind = 0
			}
			ext := 1 + d.rnd.Intn(4)
			if d.rnd.Intn(6) == 0 {
				ext = g
			}
			near := func() ip {
				q := ip{p[0] + d.rnd.Intn(ext+1), p[1] + d.rnd.Intn(ext+1)}
				if mode == 0 {
					q[1] = 0
				}
				return q
			}
			more := 0
			if d.rnd.Intn(3) == 0 {
				more = []int{1, 3, 12}[d.rnd.Intn(3)]
			}
			switch it.kind {
			case 0:
				it.parts = [][]ip{{p}}
			case 1, 3:
				k := 1 + d.rnd.Intn(4)
				if it.kind == 1 {
					k++
				}
				if d.rnd.Intn(6) == 0 {
					k += 8 + d.rnd.Intn(30)
				}
				l := []ip{p}
				for len(l) < k {
					l = append(l, near())
				}
				it.parts = [][]ip{l}
			case 2:
				q := near()
				it.parts = [][]ip{d.around(p, q, more)}
			case 4:
				for k := 1 + d.rnd.Intn(3); k > 0; k-- {
					it.parts = append(it.parts, []ip{near(), near()})
				}
			case 5:
				for k := 1 + d.rnd.Intn(3); k > 0; k-- {
					a, q := near(), near()
					it.parts = append(it.parts, d.around(a, q, more))
				}
			}
		}
		it.id = name(d.rnd.Intn(nid))
		if d.rnd.Intn(12) == 0 {
			it.id = ""
		}
		it.props = d.rnd.Intn(8)
		it.rid = d.rnd.Intn(8) == 0
		if alike && len(w.items) > 0 && d.rnd.Intn(3) > 0 {
			k := d.rnd.Intn(len(w.items))
			if w.items[k].rid {
				continue
			}
			it = d.another(w.items[k], name, nid)
			it.like = k + 1
		}
		gk := fmt.Sprint(it.kind, it.parts)
		k := fmt.Sprint(gk, it.id, it.props)
		if it.rid { // recognised by its geometry alone
			it.props, it.id = 0, fmt.Sprintf("\x00rid%d", len(w.items))
			if seen["g"+gk] {
				continue
			}
		} else if seen["r"+gk] {
			continue
		}
		if seen[k] {
			continue
		}
		seen[k], seen["g"+gk] = true, true
		if it.rid {
			seen["r"+gk] = true
		}
		it.box = boxOfParts(it.parts)
		w.items = append(w.items, it)
	}
	w.ready()
	return w
}

type hist struct {
	d    *driver
	w    *world
	t    *geo.Rtree
	ev   []E
	bag  []int // the driver's own guess of what is stored, only to steer choices
	dead bool
}

func (h *hist) content() []int {
	big := math.Inf(1)
	r := h.w.whichAll(h.t.SearchIntersect(geo.NewBox(-big, -big, big, big)))
	sort.Ints(r)
	return r
}

// step records one call; an operation that panics ends the history.
func (h *hist) step(ev E, f func()) {
	h.d.flight(ev, len(h.ev) == 0)
	ev["pn"] = h.d.call(f)
	if _, ok := ev["c"]; !ok {
		ev["c"] = []int{}
	}
	if ev["pn"].(int) != 0 {
		h.dead = true
	}
	h.ev = append(h.ev, ev)
}

func (h *hist) mutated(ev E) {
	c := h.content()
	ev["c"] = c
	for i := range h.bag {
		h.bag[i] = 0
	}
	for _, o := range c {
		if o > 0 {
			h.bag[o-1]++
		}
	}
}

func (h *hist) total() int {
	s := 0
	for _, n := range h.bag {
		s += n
	}
	return s
}

func (h *hist) stored() []int {
	r := []int{}
	for i, n := range h.bag {
		if n > 0 {
			r = append(r, i)
		}
	}
	return r
}

func (h *hist) build(route, min, max int, give []int) {
	w, d := h.w, h.d
	bx := [][4]int{}
	ids := []int{}
	for _, it := range w.items {
		bx = append(bx, it.box)
		ids = append(ids, it.idn)
	}
	g1 := []int{}
	for _, g := range give {
		g1 = append(g1, g+1)
	}
	ev := E{"op": "build", "route": route, "min": min, "max": max, "give": g1, "boxes": bx, "ids": ids, "kept": 1, "nids": []int{}}
	h.step(ev, func() {
		if route == 3 {
			gs := []geo.Geometry{}
			for _, g := range give {
				gs = append(gs, w.items[g].geom(w.m))
			}
			cp := append([]geo.Geometry{}, gs...)
			h.t = geo.NewRandomIDTree(gs...)
			ev["kept"] = b2i(reflect.DeepEqual(cp, gs))
		} else {
			// spare capacity: the list is a prefix of a longer one
			all := []geo.Spatial{}
			for _, g := range give {
				all = append(all, w.spatial(g))
			}
			all = append(all, geo.Spatial{ID: "guard1"}, geo.Spatial{ID: "guard2"}, geo.Spatial{ID: "guard3"})
			gs := all[:len(give)]
			cp := append([]geo.Spatial{}, all...)
			switch route {
			case 0:
				h.t = geo.NewMinMaxTree(min, max, gs...)
			case 1:
				h.t = geo.NewTree(gs...)
			case 2:
				h.t = geo.NewTreeWith(gs...)
			}
			ev["kept"] = b2i(reflect.DeepEqual(cp, all))
		}
		if route != 0 {
			ev["min"], ev["max"] = h.t.MinChildren, h.t.MaxChildren
		}
		h.mutated(ev)
		h.learnIDs(ev)
	})
	_ = d
}

// learnIDs logs the identifiers random-identifier objects were given.
func (h *hist) learnIDs(ev E) {
	big := math.Inf(1)
	nids := [][]int{}
	for _, s := range h.t.SearchIntersect(geo.NewBox(-big, -big, big, big)) {
		if k := h.w.which(s); k > 0 && h.w.items[k-1].rid {
			nids = append(nids, []int{k, h.w.idn(s.ID)})
		}
	}
	ev["nids"] = nids
}

func (h *hist) insert(i int) {
	w := h.w
	if w.items[i].rid {
		if h.bag[i] > 0 {
			return
		}
		ev := E{"op": "insr", "o": i + 1, "nids": [][]int{}}
		h.step(ev, func() { h.t.InsertWithRandomId(w.items[i].geom(w.m)); h.mutated(ev); h.learnIDs(ev) })
		return
	}
	ev := E{"op": "ins", "o": i + 1}
	h.step(ev, func() { h.t.Insert(w.spatial(i)); h.mutated(ev) })
}

func (h *hist) del(i int) {
	w := h.w
	ev := E{"op": "del", "o": i + 1, "r": 0}
	obj := w.spatial(i)
	if w.items[i].rid { // only the stored object itself can be asked for
		b := w.box(w.items[i].box)
		found := false
		for _, s := range h.t.SearchIntersect(b) {
			if w.which(s) == i+1 {
				obj, found = s, true
			}
		}
		if !found {
			return
		}
	}
	h.step(ev, func() { ev["r"] = b2i(h.t.Delete(obj)); h.mutated(ev) })
}

func (h *hist) delCmp(i int, match []int) {
	w := h.w
	ok := map[int]bool{}
	m1 := []int{}
	for _, x := range match {
		ok[x+1] = true
		m1 = append(m1, x+1)
	}
	ev := E{"op": "delc", "o": i + 1, "m": m1, "r": 0}
	h.step(ev, func() {
		ev["r"] = b2i(h.t.DeleteWithComparator(w.spatial(i), func(o ...geo.Spatial) bool {
			return len(o) == 2 && ok[w.which(o[0])]
		}))
		h.mutated(ev)
	})
}

func (h *hist) delID(n int) {
	ev := E{"op": "delid", "id": n, "r": 0}
	h.step(ev, func() { ev["r"] = b2i(h.t.DeleteBySpatialID(h.w.names[n-1])); h.mutated(ev) })
}

func (h *hist) upsert(is []int) {
	w := h.w
	os, ss := []int{}, []geo.Spatial{}
	for _, i := range is {
		if !w.items[i].rid {
			os, ss = append(os, i+1), append(ss, w.spatial(i))
		}
	}
	ev := E{"op": "ups", "os": os}
	h.step(ev, func() { h.t.UpsertBySpatialID(ss...); h.mutated(ev) })
}

func (h *hist) qbox() [4]int {
	d, w := h.d, h.w
	switch d.rnd.Intn(5) {
	case 0: // touching an object's corner
		b := w.items[d.rnd.Intn(len(w.items))].box
		x, y := b[d.rnd.Intn(2)*2], b[1+d.rnd.Intn(2)*2]
		k := d.rnd.Intn(4)
		return [4]int{x - k*d.rnd.Intn(2), y - k*d.rnd.Intn(2), x + k*d.rnd.Intn(2), y + k*d.rnd.Intn(2)}
	case 1: // just missing one
		b := w.items[d.rnd.Intn(len(w.items))].box
		return [4]int{b[2] + 1, b[1] - 1, b[2] + 3, b[3] + 1}
	case 2: // an object's own box
		return w.items[d.rnd.Intn(len(w.items))].box
	case 3: // between two objects
		a, b := w.items[d.rnd.Intn(len(w.items))].box, w.items[d.rnd.Intn(len(w.items))].box
		x0, x1 := imin(a[2], b[0]), imax(a[2], b[0])
		y0, y1 := imin(a[1], b[1]), imax(a[1], b[1])
		return [4]int{x0, y0, x1, y1}
	}
	a, b := d.pt(45), d.pt(45)
	return [4]int{imin(a[0], b[0]), imin(a[1], b[1]), imax(a[0], b[0]), imax(a[1], b[1])}
}

func (h *hist) qpoint() ip {
	d, w := h.d, h.w
	b := w.items[d.rnd.Intn(len(w.items))].box
	switch d.rnd.Intn(4) {
	case 0:
		return ip{b[0], b[1]}
	case 1:
		return ip{b[2] + d.rnd.Intn(3), b[3] - d.rnd.Intn(3)}
	}
	if d.rnd.Intn(4) == 0 { // from far away
		return []ip{{500, 0}, {-500, 1}, {2, 500}, {0, -500}, {-300, -300}, {300, 300}}[d.rnd.Intn(6)]
	}
	q := d.pt(45)
	return ip{q[0] - 3, q[1] - 3}
}

// ask names what a query found, now and then after others were made.
func (h *hist) ask(found []geo.Spatial) []int {
	h.d.decoy(func(o []geo.Point) {
		t := geo.NewMinMaxTree(2, 4)
		for i, p := range o {
			t.Insert(geo.Spatial{ID: fmt.Sprint("other", i), Geom: p})
		}
		for _, t := range []*geo.Rtree{t, h.t} {
			big := math.Inf(1)
			t.SearchIntersect(geo.NewBox(-big, -big, big, big))
			t.SearchIntersectWithCond(geo.NewBox(-big, -big, big, big), func(...geo.Spatial) bool { return true })
			t.NearestNeighbors(4, o[2])
			t.SearchBySpatialID("other1")
			t.GetAllBoundingBoxes()
		}
	})
	return h.w.whichAll(found)
}

func (h *hist) search() {
	w := h.w
	q := h.qbox()
	ev := E{"op": "search", "q": q, "res": []int{}}
	h.step(ev, func() { ev["res"] = h.ask(h.t.SearchIntersect(w.box(q))) })
}

func (h *hist) searchCond() {
	w, d := h.w, h.d
	q := h.qbox()
	ok := map[int]bool{}
	m := []int{}
	for i := range w.items {
		if d.rnd.Intn(2) == 0 {
			ok[i+1] = true
			m = append(m, i+1)
		}
	}
	ev := E{"op": "cond", "q": q, "m": m, "res": []int{}, "narg": 1}
	h.step(ev, func() {
		ev["res"] = h.ask(h.t.SearchIntersectWithCond(w.box(q), func(o ...geo.Spatial) bool {
			if len(o) != 1 {
				ev["narg"] = len(o)
				return false
			}
			return ok[w.which(o[0])]
		}))
	})
}

func (h *hist) byID(n int) {
	ev := E{"op": "byid", "id": n, "res": []int{}}
	h.step(ev, func() { ev["res"] = h.ask(h.t.SearchBySpatialID(h.w.names[n-1])) })
}

func (h *hist) size() {
	ev := E{"op": "size", "r": 0}
	h.step(ev, func() { ev["r"] = h.t.Size() })
}

func (h *hist) nn() {
	w, d := h.w, h.d
	p := h.qpoint()
	k := []int{0, 1, 1, 2, 3, 5, h.total(), h.total() + 1, 2*h.total() + 3}[d.rnd.Intn(9)]
	ev := E{"op": "nn", "p": p, "k": k, "res": []int{}}
	if d.rnd.Intn(12) == 0 {
		k = math.MaxInt64
		ev["k"] = 1000000
	}
	h.step(ev, func() { ev["res"] = h.ask(h.t.NearestNeighbors(k, w.m.pt(p))) })
}

func (h *hist) shape() {
	w := h.w
	ev := E{"op": "shape", "depth": 0, "nb": [][]int{}}
	h.step(ev, func() {
		ev["depth"] = h.t.Depth()
		nb := [][]int{}
		bs := h.t.GetAllBoundingBoxes()
		h.ask(nil)
		for _, b := range bs {
			nb = append(nb, w.unbox(b))
		}
		ev["nb"] = nb
	})
}

// recheck looks at the content again after queries.
func (h *hist) recheck() {
	ev := E{"op": "again"}
	h.step(ev, func() { ev["c"] = h.content() })
}

func (h *hist) someID() int {
	if h.d.rnd.Intn(3) > 0 {
		if s := h.stored(); len(s) > 0 {
			i := s[h.d.rnd.Intn(len(s))]
			if !h.w.items[i].rid {
				return h.w.items[i].idn
			}
		}
	}
	return 1 + h.d.rnd.Intn(len(h.w.names))
}

func (h *hist) pick(stored bool) int {
	if stored {
		if s := h.stored(); len(s) > 0 {
			return s[h.d.rnd.Intn(len(s))]
		}
	}
	return h.d.rnd.Intn(len(h.w.items))
}

func (h *hist) query() {
	d := h.d
	p := map[string]int{"R01": 0, "R02": 1, "R03": 2, "R04": 3, "R05": 4, "R06": 5}
	c := d.rnd.Intn(6)
	if v, ok := p[d.prop]; ok && d.rnd.Intn(3) > 0 {
		c = v
	}
	switch c {
	case 0:
		if d.rnd.Intn(3) == 0 {
			h.searchCond()
		} else {
			h.search()
		}
	case 1:
		h.delete()
	case 2:
		if d.rnd.Intn(3) == 0 {
			h.size()
		} else {
			h.byID(h.someID())
		}
	case 3:
		h.nn()
	case 4:
		h.shape()
	default:
		h.recheck()
	}
}

func (h *hist) delete() {
	d := h.d
	switch d.rnd.Intn(6) {
	case 0, 1, 2:
		i := h.pick(d.rnd.Intn(4) > 0)
		if k := h.w.items[i].like; k > 0 && d.rnd.Intn(2) == 0 {
			i = k - 1 // the one it is a copy of, stored or not
		}
		h.del(i)
	case 3:
		i := h.pick(d.rnd.Intn(2) > 0)
		m := []int{}
		for j := range h.w.items {
			if j == i && d.rnd.Intn(3) > 0 || d.rnd.Intn(6) == 0 {
				m = append(m, j)
			}
		}
		h.delCmp(i, m)
	default:
		h.delID(h.someID())
	}
}

func (h *hist) mutate(grow int) { // grow: chance in 10 of growing
	d := h.d
	if d.rnd.Intn(10) < grow {
		if d.rnd.Intn(5) == 0 {
			k := 1 + d.rnd.Intn(3)
			is := []int{}
			for ; k > 0; k-- {
				is = append(is, h.pick(d.rnd.Intn(2) == 0))
			}
			h.upsert(is)
		} else {
			h.insert(h.pick(d.rnd.Intn(6) == 0))
		}
		return
	}
	h.delete()
}

var caps = [][2]int{{1, 2}, {1, 2}, {1, 3}, {1, 4}, {2, 4}, {2, 4}, {2, 5}, {1, 5}, {3, 6}, {3, 7}, {5, 10}, {2, 10}}

func (d *driver) start(n int) *hist {
	w := d.newWorld(n)
	h := &hist{d: d, w: w, bag: make([]int, len(w.items))}
	c := caps[d.rnd.Intn(len(caps))]
	route := []int{0, 0, 0, 1, 2, 3}[d.rnd.Intn(6)]
	give := []int{}
	k := 0
	switch d.rnd.Intn(4) {
	case 0: // empty
	case 1: // around the capacity and its powers
		k = c[1]
		for d.rnd.Intn(2) == 0 && k*c[1] < 260 {
			k *= c[1]
		}
		k += d.rnd.Intn(3) - 1
	default:
		k = d.rnd.Intn(n + 3)
	}
	for len(give) < k {
		i := d.rnd.Intn(len(w.items))
		if route != 3 && w.items[i].rid {
			if d.rnd.Intn(50) == 0 {
				break
			}
			continue
		}
		give = append(give, i)
	}
	if route == 3 { // every random-identifier object at most once, and nothing else
		seen := map[int]bool{}
		gg := []int{}
		for i := range w.items {
			if w.items[i].rid {
				seen[i] = true
				gg = append(gg, i)
			}
		}
		d.rnd.Shuffle(len(gg), func(i, j int) { gg[i], gg[j] = gg[j], gg[i] })
		if len(gg) > k {
			gg = gg[:k]
		}
		give = gg
	}
	h.build(route, c[0], c[1], give)
	return h
}

func init() {
	suites["rtree"] = rtreeSuite
	suites["rtreegen"] = rtreeGen
	suites["readers"] = readersSuite
}

// bulk builds from a list of any length, then uses the index a little.
func (d *driver) bulk() {
	w := d.newWorld(6 + d.rnd.Intn(30))
	h := &hist{d: d, w: w, bag: make([]int, len(w.items))}
	max := 2 + d.rnd.Intn(9)
	min := 1 + d.rnd.Intn(max/2)
	n := d.rnd.Intn(140)
	if d.rnd.Intn(12) == 0 {
		n = 140 + d.rnd.Intn(500)
	}
	own := []int{}
	for i := range w.items {
		if !w.items[i].rid {
			own = append(own, i)
		}
	}
	give := []int{}
	for len(give) < n && len(own) > 0 {
		give = append(give, own[d.rnd.Intn(len(own))])
	}
	h.build(d.rnd.Intn(8)/6, min, max, give)
	for k := d.rnd.Intn(6); k > 0 && !h.dead; k-- {
		if d.rnd.Intn(2) == 0 {
			h.mutate(6)
		}
		if !h.dead {
			h.query()
		}
	}
	d.hist(h.ev)
}

// randoms builds from more objects with made-up identifiers than a small counter can tell apart.
func (d *driver) randoms() {
	w := &world{m: d.anyPlace(), ids: map[string]int{}}
	n := 240 + d.rnd.Intn(420)
	for i := 0; i < n; i++ {
		p := ip{i % 25, i / 25}
		w.items = append(w.items, item{parts: [][]ip{{p}}, box: [4]int{p[0], p[1], p[0], p[1]}, rid: true, id: fmt.Sprintf("\x00rid%d", i)})
	}
	w.ready()
	h := &hist{d: d, w: w, bag: make([]int, n)}
	h.build(3, 0, 0, d.rnd.Perm(n)[:n-d.rnd.Intn(3)])
	for k := d.rnd.Intn(5); k > 0 && !h.dead; k-- {
		switch d.rnd.Intn(3) {
		case 0:
			h.delID(1 + d.rnd.Intn(len(w.names)))
		case 1:
			h.insert(d.rnd.Intn(n))
		default:
			h.query()
		}
	}
	d.hist(h.ev)
}

func rtreeSuite(d *driver) {
	d.randoms()
	for d.nev < d.n {
		if d.rnd.Intn(10) < map[string]int{"R06": 9, "R05": 6, "R01": 4}[d.prop] {
			d.bulk()
			continue
		}
		n := []int{4, 8, 14, 24, 40}[d.rnd.Intn(5)]
		if d.rnd.Intn(25) == 0 {
			n = 90
		}
		h := d.start(n)
		phases := 2 + d.rnd.Intn(4)
		grow := []int{9, 5, 7}[d.rnd.Intn(3)]
		for p := 0; p < phases && !h.dead; p++ {
			steps := 5 + d.rnd.Intn(n)
			for s := 0; s < steps && !h.dead; s++ {
				h.mutate(grow)
				for !h.dead && d.rnd.Intn(3) == 0 {
					h.query()
				}
			}
			if d.rnd.Intn(4) == 0 && !h.dead { // drain to empty
				for k := 0; k < 200 && !h.dead && h.total() > 0; k++ {
					h.del(h.pick(true))
					if d.rnd.Intn(4) == 0 && !h.dead {
						h.query()
					}
				}
				for k := 0; k < 3 && !h.dead; k++ {
					h.query()
				}
				grow = 9
				continue
			}
			grow = []int{9, 1, 5, 3}[d.rnd.Intn(4)]
		}
		if !h.dead {
			h.recheck()
		}
		d.hist(h.ev)
	}
}

// rtreeGen replays the histories TLC generated from the specification.
func rtreeGen(d *driver) {
	f, err := os.Open(d.plan)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() && d.nev < d.n {
		var p struct {
			Boxes [][4]int        `json:"boxes"`
			Ids   []int           `json:"ids"`
			Ops   [][]interface{} `json:"ops"`
		}
		if err := json.Unmarshal(sc.Bytes(), &p); err != nil {
			panic(err)
		}
		w := &world{m: d.anyPlace(), ids: map[string]int{}}
		if d.rnd.Intn(5) == 0 { // sizes and squares of distances out of a float64's range
			w.m = place{math.Ldexp(1, []int{-1060, -500, 500, 600, 1000}[d.rnd.Intn(5)]), 0, 0}
		}
		for i, b := range p.Boxes {
			it := item{id: fmt.Sprintf("id%d", p.Ids[i]), box: b, props: 1 + i%4}
			it.kind = d.rnd.Intn(3)
			if it.kind == 0 && (b[0] != b[2] || b[1] != b[3]) {
				it.kind = 1
			}
			lo, hi := ip{b[0], b[1]}, ip{b[2], b[3]}
			switch it.kind {
			case 0:
				it.parts = [][]ip{{lo}}
			case 1:
				it.parts = [][]ip{{lo, hi}}
			case 2:
				it.parts = [][]ip{{lo, {hi[0], lo[1]}, hi, {lo[0], hi[1]}, lo}}
			}
			for j := 0; j < i; j++ { // universe objects differ in value
				if w.items[j].box == b && w.items[j].id == it.id {
					it.props = 1 + (w.items[j].props)%4
				}
			}
			w.items = append(w.items, it)
		}
		w.ready()
		h := &hist{d: d, w: w, bag: make([]int, len(w.items))}
		for _, o := range p.Ops {
			if h.dead {
				break
			}
			num := func(k int) int { return int(o[k].(float64)) }
			list := func(k int) []int {
				r := []int{}
				for _, x := range o[k].([]interface{}) {
					r = append(r, int(x.(float64))-1)
				}
				return r
			}
			switch o[0].(string) {
			case "build":
				h.build(0, num(1), num(2), list(3))
			case "ins":
				h.insert(num(1) - 1)
			case "del":
				h.del(num(1) - 1)
			case "delid":
				h.delID(w.idn(fmt.Sprintf("id%d", num(1))))
			case "ups":
				h.upsert(list(1))
			}
			if !h.dead && h.t != nil {
				h.query()
			}
		}
		if !h.dead {
			h.recheck()
		}
		d.hist(h.ev)
	}
}

// readersSuite runs queries alone, then many at a time, on indexes reached by histories.
func readersSuite(d *driver) {
	for d.nev < d.n {
		n := []int{8, 20, 50}[d.rnd.Intn(3)]
		var h *hist
		if d.rnd.Intn(4) == 0 {
			h = d.strip()
		} else {
			h = d.start(n)
		}
		for s := 0; s < n && !h.dead; s++ {
			h.mutate(8)
		}
		for round := 0; round < 2 && !h.dead; round++ {
			h.par(12)
			if !h.dead {
				h.recheck()
			}
			for s := 0; s < 4 && !h.dead; s++ {
				h.mutate(3)
			}
		}
		d.hist(h.ev)
	}
}

// strip builds wide nodes whose children lie in a row.
func (d *driver) strip() *hist {
	w := &world{m: d.anyPlace(), ids: map[string]int{}}
	n := 30 + d.rnd.Intn(100)
	dir := []ip{{1, 0}, {0, 1}, {1, 1}, {1, -1}}[d.rnd.Intn(4)]
	for i := 0; i < n; i++ {
		p := ip{i * dir[0], i * dir[1]}
		w.items = append(w.items, item{parts: [][]ip{{p}}, box: [4]int{p[0], p[1], p[0], p[1]}, id: fmt.Sprintf("id%d", i%(1+d.rnd.Intn(n)))})
	}
	w.ready()
	h := &hist{d: d, w: w, bag: make([]int, n)}
	c := [][2]int{{4, 8}, {5, 10}, {8, 16}, {6, 12}}[d.rnd.Intn(4)]
	give := []int{}
	for i := 0; i < n; i++ {
		give = append(give, i)
	}
	if d.rnd.Intn(2) == 0 {
		d.rnd.Shuffle(n, func(i, j int) { give[i], give[j] = give[j], give[i] })
	}
	h.build(0, c[0], c[1], give)
	return h
}

func (h *hist) par(nq int) {
	d, w := h.d, h.w
	type query struct {
		E
		run func() []int
	}
	qs := []query{}
	for i := 0; i < nq; i++ {
		switch d.rnd.Intn(6) {
		case 0:
			b := w.box(h.qbox())
			qs = append(qs, query{E{"kind": "search"}, func() []int { return w.whichAll(h.t.SearchIntersect(b)) }})
		case 1:
			b := w.box(h.qbox())
			ok := map[int]bool{}
			for i := range w.items {
				ok[i] = d.rnd.Intn(2) == 0
			}
			qs = append(qs, query{E{"kind": "cond"}, func() []int {
				return w.whichAll(h.t.SearchIntersectWithCond(b, func(o ...geo.Spatial) bool { return len(o) == 1 && ok[w.which(o[0])-1] }))
			}})
		case 2:
			id := w.names[h.someID()-1]
			qs = append(qs, query{E{"kind": "byid"}, func() []int { return w.whichAll(h.t.SearchBySpatialID(id)) }})
		case 3, 4:
			p, k := w.m.pt(h.qpoint()), d.rnd.Intn(h.total()+3)
			qs = append(qs, query{E{"kind": "nn"}, func() []int { return w.whichAll(h.t.NearestNeighbors(k, p)) }})
		case 5:
			qs = append(qs, query{E{"kind": "shape"}, func() []int {
				r := []int{h.t.Depth(), h.t.Size()}
				for _, b := range h.t.GetAllBoundingBoxes() {
					r = append(r, w.unbox(b)...)
				}
				return r
			}})
		}
	}
	ev := E{"op": "par", "qs": []E{}}
	h.step(ev, func() {
		alone := func() {
			for i := range qs {
				qs[i].E["alone"] = qs[i].run()
			}
		}
		late := d.rnd.Intn(2) == 0 // the first queries after a change run at the same time, too
		if !late {
			alone()
		}
		var wg sync.WaitGroup
		var mu sync.Mutex
		got := make([][][]int, nq)
		for i := range got {
			got[i] = [][]int{}
		}
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for j := range qs {
					i := (j*(2*g+1) + g) % len(qs)
					var r []int
					if h.d.quiet(func() { r = qs[i].run() }) {
						r = []int{-1}
					}
					mu.Lock()
					got[i] = append(got[i], r)
					mu.Unlock()
				}
			}(g)
		}
		wg.Wait()
		if late {
			alone()
		} else { // once more
			for i := range qs {
				got[i] = append(got[i], qs[i].run())
			}
		}
		l := []E{}
		for i := range qs {
			// the distinct answers
			seen := map[string]bool{}
			u := [][]int{}
			for _, r := range got[i] {
				if k := fmt.Sprint(r); !seen[k] {
					seen[k] = true
					u = append(u, r)
				}
			}
			qs[i].E["got"] = u
			l = append(l, qs[i].E)
		}
		ev["qs"] = l
	})
}

// quiet is call without touching shared state.
func (d *driver) quiet(f func()) (bad bool) {
	defer func() {
		if recover() != nil {
			bad = true
		}
	}()
	f()
	return false
}
