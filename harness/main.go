// The conformance driver: it makes public-API calls on hzw456/go-geo and records
// what they returned, as integers on the specification's grid.  It judges nothing;
// the TLA+ trace specifications do.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"math/rand"
	"os"
	"sync"
	"sync/atomic"
	"time"
)

type E map[string]interface{}

type driver struct {
	w      *bufio.Writer
	rnd    *rand.Rand
	prop   string
	n      int
	plan   string
	nev    int
	nhist  int
	focus  map[string]bool
	lastMu sync.Mutex
	last   string
	fpos   int64
}

var (
	beat   int64 // progress counter for the watchdog
	inFile *os.File
	suites = map[string]func(*driver){}
)

func main() {
	suite := flag.String("suite", "", "suite")
	seed := flag.Int64("seed", 1, "seed")
	n := flag.Int("n", 100, "size")
	prop := flag.String("prop", "", "property in focus")
	out := flag.String("out", "", "trace file")
	plan := flag.String("plan", "", "behaviours generated from the specification")
	hang := flag.Int("hang", 90, "seconds without progress that count as a hang")
	flag.Parse()
	f, err := os.Create(*out)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	inFile, err = os.Create(*out + ".inflight")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	d := &driver{w: bufio.NewWriterSize(f, 1<<20), rnd: rand.New(rand.NewSource(*seed)), prop: *prop, n: *n, plan: *plan}
	fn := suites[*suite]
	if fn == nil {
		fmt.Fprintln(os.Stderr, "no such suite")
		os.Exit(4)
	}
	go func() {
		last, since := int64(-1), time.Now()
		for {
			time.Sleep(200 * time.Millisecond)
			b := atomic.LoadInt64(&beat)
			if b != last {
				last, since = b, time.Now()
			} else if time.Since(since) > time.Duration(*hang)*time.Second {
				fmt.Fprintln(os.Stderr, "HANG: a call did not return")
				os.Exit(3)
			}
		}
	}()
	fn(d)
	if err := d.w.Flush(); err != nil {
		os.Exit(4)
	}
	f.Close()
	os.Remove(*out + ".inflight")
	fmt.Printf("events=%d histories=%d\n", d.nev, d.nhist)
}

// inflight records what is about to run, for crashes that cannot be recovered.
func (d *driver) inflight(ev E) {
	atomic.AddInt64(&beat, 1)
	b, _ := json.Marshal(ev)
	b = append(b, '\n')
	inFile.WriteAt(b, 0)
	inFile.Truncate(int64(len(b)))
}

// flight does the same for a history, one step at a time; start begins a new one.
func (d *driver) flight(ev E, start bool) {
	atomic.AddInt64(&beat, 1)
	if start {
		d.fpos = 0
		inFile.Truncate(0)
	}
	b, _ := json.Marshal(ev)
	b = append(b, '\n')
	inFile.WriteAt(b, d.fpos)
	d.fpos += int64(len(b))
}

// call runs f and reports whether it panicked.
func (d *driver) call(f func()) (pn int) {
	atomic.AddInt64(&beat, 1)
	defer func() {
		if r := recover(); r != nil {
			pn = 1
			d.last = fmt.Sprint(r)
		}
	}()
	f()
	return 0
}

func (d *driver) line(v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		fmt.Fprintln(os.Stderr, "marshal:", err, v)
		os.Exit(4)
	}
	d.w.Write(b)
	d.w.WriteByte('\n')
}

// one emits a history of a single event.
func (d *driver) one(ev E) {
	d.line(ev)
	d.nev++
	d.nhist++
}

// hist emits a history.
func (d *driver) hist(evs []E) {
	d.line(E{"ev": evs})
	d.nev += len(evs)
	d.nhist++
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

const off = 999999     // "not on the grid"
const nan = 2147000000 // "not a number, or out of range"

// lat maps a float to the integer it must be, or off.
func lat(x float64) int {
	r := math.Round(x)
	if math.IsNaN(x) || math.Abs(r) > 900000 || math.Abs(x-r) > 1e-6 {
		return off
	}
	return int(r)
}

// rat finds p/q with q <= maxDen within 1e-9 of x (continued fractions); <<0,0>> if there is none.
func rat(x float64, maxDen int) []int {
	if math.IsNaN(x) || math.IsInf(x, 0) || math.Abs(x) > 1e6 {
		return []int{0, 0}
	}
	tol := 1e-9 * math.Max(1, math.Abs(x))
	p0, q0, p1, q1 := 0.0, 1.0, 1.0, 0.0
	y := x
	for i := 0; i < 40; i++ {
		a := math.Floor(y)
		p0, q0, p1, q1 = p1, q1, a*p1+p0, a*q1+q0
		if q1 > float64(maxDen) {
			return []int{0, 0}
		}
		if math.Abs(p1/q1-x) <= tol {
			if math.Abs(p1) > 100000 {
				break
			}
			return []int{int(p1), int(q1)}
		}
		if y == a {
			break
		}
		y = 1 / (y - a)
	}
	return []int{0, 0}
}

// qz rounds x*k, or off.
func qz(x, k float64) int {
	v := math.Round(x * k)
	if math.IsNaN(v) || math.Abs(v) > 2.1e9 {
		return nan
	}
	return int(v)
}

// bitsOf is the exact identity of a double.
func bitsOf(x float64) string { return fmt.Sprintf("%016x", math.Float64bits(x)) }
