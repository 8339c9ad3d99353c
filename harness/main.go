// Command harness executes behaviours on the real finmod code and logs every
// public call with its observed outcome, one JSON object per line. It decides
// nothing: the log is judged by the TLA+ trace specifications in ../spec.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sync"
	"time"

	"github.com/vanclief/ez"
)

type rec map[string]interface{}

// env is what a driver gets.
type env struct {
	prop     string
	seed     int64
	thorough bool
	only     int // execute only this case, -1 for all
	random   int // number of random cases
	every    int // execute every n-th model behaviour
	limit    int // stop after this number of model behaviours, 0 for no limit

	mu      sync.Mutex
	out     *bufio.Writer
	records int
	cases   int
	caseID  int
	base    rec // fields of the call in progress
	started time.Time
	in      string
	scratch string
	marks   *os.File // case and operation of the call in progress, should the process die in it
}

// off is logged for a number that is not on the grid of the model.
const off = -1999999999

// grid maps an observed float back to the integer it stands for: x must be within tol of
// a multiple of unit. Numbers off the grid are reported as such and accepted by no property.
func grid(x, unit, tol float64) int {
	q := x / unit
	r := math.Round(q)
	if math.IsNaN(q) || math.Abs(r) > 1.9e9 || math.Abs(x-r*unit) > tol {
		return off
	}
	return int(r)
}

func code(err error) string {
	if err == nil {
		return ""
	}
	if c := ez.ErrorCode(err); c != "" {
		return c
	}
	return "error"
}

// begin starts a case; it returns false when the case is not selected.
func (e *env) begin(id int) bool {
	e.caseID = id
	if e.only >= 0 && e.only != id {
		return false
	}
	e.cases++
	return true
}

// rng is deterministic per case, so that a case can be re-executed alone.
func (e *env) rng() *rand.Rand {
	return rand.New(rand.NewSource(e.seed*1000003 + int64(e.caseID)*7919 + 17))
}

func (e *env) emit(r rec) {
	e.mu.Lock()
	defer e.mu.Unlock()
	r["case"] = e.caseID
	if _, ok := r["panic"]; !ok {
		r["panic"] = false
	}
	b, err := json.Marshal(r)
	if err != nil {
		fatal(err)
	}
	e.out.Write(b)
	e.out.WriteByte('\n')
	e.records++
	if e.only >= 0 {
		e.out.Flush()
	}
}

// mark notes the call in progress.
func (e *env) mark(op string) {
	e.mu.Lock()
	e.base = rec{"op": op}
	e.started = time.Now()
	e.mu.Unlock()
	e.marks.WriteAt([]byte(fmt.Sprintf("%-12d %-20s", e.caseID, op)), 0)
}

// call runs f. A panic is logged as the outcome of the call and ends the case (false).
func (e *env) call(op string, f func()) (ok bool) {
	e.mark(op)
	defer func() {
		e.mu.Lock()
		e.base = nil
		e.mu.Unlock()
		if p := recover(); p != nil {
			e.emit(rec{"op": op, "panic": true, "note": fmt.Sprint(p)})
			ok = false
		}
	}()
	f()
	return true
}

// callQuiet is call without logging the panic: the caller does.
func (e *env) callQuiet(op string, f func()) (ok bool) {
	e.mark(op)
	defer func() {
		e.mu.Lock()
		e.base = nil
		e.mu.Unlock()
		if p := recover(); p != nil {
			ok = false
		}
	}()
	f()
	return true
}

// watchdog turns a call that does not return, or eats all memory, into a logged outcome.
func (e *env) watchdog() {
	var m runtime.MemStats
	for {
		time.Sleep(250 * time.Millisecond)
		e.mu.Lock()
		b, s := e.base, e.started
		e.mu.Unlock()
		if b == nil {
			continue
		}
		runtime.ReadMemStats(&m)
		if time.Since(s) < 20*time.Second && m.HeapAlloc < 3<<30 {
			continue
		}
		e.mu.Lock()
		if e.base == nil {
			e.mu.Unlock()
			continue
		}
		op := b["op"]
		e.mu.Unlock()
		e.emit(rec{"op": op, "panic": true, "note": "the call did not return"})
		e.finish()
		os.Exit(0)
	}
}

func (e *env) finish() {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.out.Flush()
	fmt.Printf("{\"records\": %d, \"cases\": %d}\n", e.records, e.cases)
}

func fatal(v ...interface{}) {
	fmt.Fprintln(os.Stderr, v...)
	os.Exit(3)
}

// lines calls f for every model behaviour.
func (e *env) lines(f func(raw []byte)) {
	if e.in == "" {
		return
	}
	file, err := os.Open(e.in)
	if err != nil {
		fatal(err)
	}
	defer file.Close()
	r := bufio.NewReaderSize(file, 1<<20)
	for {
		line, err := r.ReadBytes('\n')
		if len(line) > 1 {
			f(line)
		}
		if err == io.EOF {
			return
		} else if err != nil {
			fatal(err)
		}
	}
}

func unquote(line []byte) []byte {
	var s string
	if err := json.Unmarshal(line, &s); err != nil {
		fatal(err)
	}
	return []byte(s)
}

// behaviours calls f for every model behaviour, as selected.
func (e *env) behaviours(f func(id int, raw []byte)) {
	n := 0
	e.lines(func(line []byte) {
		id := n
		n++
		if e.only < 0 && id%e.every == int(uint64(e.seed)%uint64(e.every)) || e.only == id {
			if e.begin(id) {
				f(id, unquote(line))
			}
		}
	})
}

// randomBase is the id of the first random case.
const randomBase = 100000000

func (e *env) randoms(f func(id int, r *rand.Rand)) {
	for k := 0; k < e.random; k++ {
		if e.begin(randomBase + k) {
			f(randomBase+k, e.rng())
		}
	}
}

func decode(raw []byte, v interface{}) {
	if err := json.Unmarshal(raw, v); err != nil {
		fatal(err, string(raw))
	}
}

var drivers = map[string]func(*env){}

func main() {
	var e env
	family := flag.String("family", "", "family of properties")
	out := flag.String("out", "", "log file")
	tier := flag.String("tier", "quick", "quick or thorough")
	flag.StringVar(&e.prop, "prop", "", "property")
	flag.Int64Var(&e.seed, "seed", 1, "seed")
	flag.IntVar(&e.only, "case", -1, "execute only this case")
	flag.IntVar(&e.random, "random", 0, "number of random cases")
	flag.IntVar(&e.every, "every", 1, "execute every n-th model behaviour")
	flag.StringVar(&e.in, "behaviours", "", "file of model behaviours")
	flag.StringVar(&e.scratch, "scratch", "", "scratch directory")
	alone := flag.Bool("solo", false, "make the calls given on the standard input")
	flag.Parse()
	if *alone {
		solo(&e)
		return
	}
	e.thorough = *tier == "thorough"
	drive, ok := drivers[*family]
	if !ok {
		fatal("unknown family", *family)
	}
	f, err := os.Create(*out)
	if err != nil {
		fatal(err)
	}
	e.out = bufio.NewWriterSize(f, 1<<20)
	if e.marks, err = os.Create(*out + ".mark"); err != nil {
		fatal(err)
	}
	debug.SetMaxStack(128 << 20)
	go e.watchdog()
	drive(&e)
	e.finish()
	if err := f.Close(); err != nil {
		fatal(err)
	}
}
