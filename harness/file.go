package main

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"os"
	"os/signal"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/vanclief/finmod/market"
)

func init() {
	drivers["file"] = driveFile
	drivers["cut"] = driveCut
}

var fileFloats = []float64{
	0, math.Copysign(0, -1), 0.1, 1.0 / 3, 2772.42, 12907.39026, -1.5, 1e21, 1e20, 123456789012345678, 1e-7, 1e-5, 5e-324, 2.2250738585072014e-308,
	math.MaxFloat64, -math.MaxFloat64, math.Nextafter(1, 2), 1 - 1e-16, 9007199254740993, 0.30000000000000004, 1e100, 3, 100, 1234567.891, 8388608.5, 1e6, 999999.999999,
	27123.45, 0.00001234, 64999.99, 1, 2, 10, 250, -20, 0.5, 1e9, 1e15, 7e-9, 42000, 123456.75,
}

var fileTimes = []int64{0, 1, -1, 60, 1619827200, math.MaxInt32, math.MaxInt32 + 1, math.MinInt32, math.MinInt32 - 1, 1<<53 + 1, math.MaxInt64, math.MinInt64, 4102444800, 1619827200123, 7, 1619827260, 1619827201, 86400, -86400, 951782400, 1000000000}

func fileCandle(c mCandle) market.Candle {
	f := func(i int) float64 { return fileFloats[i%len(fileFloats)] }
	return market.Candle{Time: fileTimes[c[0]%len(fileTimes)], Open: f(c[1]), High: f(c[2]), Low: f(c[3]), Close: f(c[4]), Volume: f(c[5])}
}

func fileBack(c market.Candle) mCandle {
	f := func(x float64) int {
		for i, y := range fileFloats {
			if math.Float64bits(x) == math.Float64bits(y) {
				return i
			}
		}
		return off
	}
	t := off
	for i, y := range fileTimes {
		if c.Time == y {
			t = i
		}
	}
	return mCandle{t, f(c.Open), f(c.High), f(c.Low), f(c.Close), f(c.Volume)}
}

func randomFileCandles(r *rand.Rand, n int) []mCandle {
	cs := make([]mCandle, 0, n)
	repeats := r.Intn(3) == 0
	for i := 0; i < n; i++ {
		if repeats && i > 0 && r.Intn(3) == 0 { // the candle before, or all of it but the time
			c := cs[i-1]
			if r.Intn(2) == 0 {
				c[0] = r.Intn(len(fileTimes))
			}
			cs = append(cs, c)
			continue
		}
		cs = append(cs, mCandle{r.Intn(len(fileTimes)), r.Intn(len(fileFloats)), r.Intn(len(fileFloats)), r.Intn(len(fileFloats)), r.Intn(len(fileFloats)), r.Intn(len(fileFloats))})
	}
	return cs
}

// damages are lines that are not a six-field candle.
var damages = []string{
	"", " ", "   ", "{", "}", "{}", "{ }", "x", "{1 2 3 4 5}", "{1 2 3 4 5 6 7}", "{1}", "{1 2}", "{1 2 3}", "{1 2 3 4}",
	"{x 2 3 4 5 6}", "{1 x 3 4 5 6}", "{1 2 x 4 5 6}", "{1 2 3 x 5 6}", "{1 2 3 4 x 6}", "{1 2 3 4 5 x}",
	"{ 2 3 4 5 6}", "{1  3 4 5 6}", "{1 2  4 5 6}", "{1 2 3  5 6}", "{1 2 3 4  6}", "{1 2 3 4 5 }",
	"{1.5 2 3 4 5 6}", "{1e3 2 3 4 5 6}", "{99999999999999999999 2 3 4 5 6}", "{1 1e999 3 4 5 6}", "{1 2 3 4 5 1e999}", "{1 2 1.2.3 4 5 6}", "{1 2 3 4 5 --6}",
	"1 2 3 4 5 6", "{1 2 3 4 5 6", "1 2 3 4 5 6}", "{1 2 3 4 5 67", "(1 2 3 4 5 6)", "[1 2 3 4 5 6]", "\"1 2 3 4 5 6\"", "{1,2,3,4,5,6}", "{1;2;3;4;5;6}", "{1\t2\t3\t4\t5\t6}",
	"time open high low close volume", "{time open high low close volume}", "#{1 2 3 4 5 6}", "{1 2 3 4 5 6}{1 2 3 4 5 6}", "{1 2 3 4 5 6} ", " {1 2 3 4 5 6}", "{{1 2 3 4 5 6}}",
	"\x00", "{1 2 3 4 5 \x006}", "ünïcode", strings.Repeat("x", 100000), "{1 2 3 4 5 " + strings.Repeat("6", 70000) + "x}", "null", "NaN",
}

func init() {
	good := []string{"1", "2", "3", "4", "5", "6"}
	numbers := []string{"1e999", "-1e999", "1e309", "1.2.3", "--6", "+-6", "1e", ".", "-", "+", "1,5", "0x", "٣", "6f", "6 ", "'6'", "1e+", "e5", "one"}
	times := []string{"1.0", "1e3", "0x10", "1_000", "9223372036854775808", "-9223372036854775809", "--1", "-", "+", "٣", "1L", "2021-01-01"}
	for k := range good {
		for _, w := range [][]string{times, numbers, numbers, numbers, numbers, numbers}[k] {
			fields := append([]string{}, good...)
			fields[k] = w
			damages = append(damages, "{"+strings.Join(fields, " ")+"}")
		}
	}
}

type fileOp struct {
	Op   string `json:"op"`
	Path int    `json:"path"`
	Len  int    `json:"len"`
	At   int    `json:"at"`
	Kind string `json:"kind"`
}

// limited runs f while no file can grow beyond n bytes: the device is full at that point.
func limited(e *env, n int, f func()) {
	e.mu.Lock()
	e.out.Flush()
	e.mu.Unlock()
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		fatal(err)
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(n), Max: old.Max}); err != nil {
		fatal(err)
	}
	defer syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	f()
}

func runFile(e *env, ops []fileOp, r *rand.Rand) {
	dir, err := os.MkdirTemp(e.scratch, "files")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(dir)
	names := [][]string{
		{"", "candles_1_min", "b.txt", "candles_1_min.bak", "with space"},
		{"", "BTC:USD %d", "ünï☃", "it's \"b\".csv", ".hidden"},
		{"", "candles.tmp", "candles", "candles~", strings.Repeat("long", 50)},
	}[r.Intn(3)]
	path := func(k int) string { return filepath.Join(dir, names[k]) }
	e.emit(rec{"op": "start"})

	save := func(op string, name string, p int, cs []mCandle, limit int) bool {
		in := []market.Candle{}
		for _, c := range cs {
			in = append(in, fileCandle(c))
		}
		var err error
		run := func() { err = market.SaveCandlesToFile(&in, name) }
		ok := false
		if limit >= 0 {
			limited(e, limit, func() { ok = e.callQuiet(op, run) })
		} else {
			ok = e.callQuiet(op, run)
		}
		if !ok {
			e.emit(rec{"op": op, "panic": true})
			return false
		}
		e.emit(rec{"op": op, "path": p, "candles": cs, "limit": limit, "err": code(err)})
		return true
	}
	load := func(op string, name string, p int) bool {
		var out []market.Candle
		var err error
		if !e.call(op, func() { out, err = market.LoadCandlesFromFile(name) }) {
			return false
		}
		cs := []mCandle{}
		for _, c := range out {
			cs = append(cs, fileBack(c))
		}
		e.emit(rec{"op": op, "path": p, "candles": cs, "err": code(err)})
		return true
	}

	for _, o := range ops {
		ok := true
		switch o.Op {
		case "save":
			ok = save("save", path(o.Path), o.Path, randomFileCandles(r, o.Len), -1)
		case "fail":
			cs := randomFileCandles(r, o.Len)
			size := 0
			for _, c := range cs {
				size += len(fmt.Sprintln(fileCandle(c)))
			}
			limit := r.Intn(size)
			if o.At == 0 && o.Kind == "" {
				limit = 0
			}
			ok = save("fail", path(o.Path), o.Path, cs, limit)
		case "load":
			ok = load("load", path(o.Path), o.Path)
		case "damage":
			b, _ := os.ReadFile(path(o.Path))
			lines := strings.SplitAfter(string(b), "\n")
			if lines[len(lines)-1] == "" {
				lines = lines[:len(lines)-1]
			} else {
				lines[len(lines)-1] += "\n"
			}
			at := o.At
			if at > len(lines) {
				at = len(lines)
			}
			k := r.Intn(len(damages))
			if o.Kind == "a" || o.Kind == "b" {
				k = (e.caseID + int(e.seed)*7 + len(o.Kind)) % len(damages)
			}
			text := strings.Join(lines[:at], "") + damages[k] + "\n" + strings.Join(lines[at:], "")
			if at == len(lines) && damages[k] != "" && r.Intn(2) == 0 {
				text = text[:len(text)-1] // no newline at the end
			}
			if err := os.WriteFile(path(o.Path), []byte(text), 0o644); err != nil {
				fatal(err)
			}
			e.emit(rec{"op": "damage", "path": o.Path, "at": at, "line": damages[k][:min2(40, len(damages[k]))]})
		case "tear":
			b, err := os.ReadFile(path(o.Path))
			if err != nil || len(b) == 0 {
				continue
			}
			cut := r.Intn(len(b) + 1)
			if o.At >= 0 { // 2k: behind line k, 2k+1: inside the line after it
				ends := []int{0}
				for i, c := range b {
					if c == '\n' {
						ends = append(ends, i+1)
					}
				}
				k := o.At / 2
				if k >= len(ends)-1 {
					k = 0
				}
				cut = ends[k]
				if o.At%2 == 1 && k+1 < len(ends) && ends[k+1]-ends[k] > 2 {
					cut += 1 + r.Intn(ends[k+1]-ends[k]-2)
				}
			}
			keep := b[:cut]
			whole := bytes.Count(keep, []byte("\n"))
			tail := keep[bytes.LastIndexByte(keep, '\n')+1:]
			rest := len(tail) > 0
			if rest && (cut == len(b) || b[cut] == '\n') {
				whole, rest = whole+1, false
			}
			if err := os.WriteFile(path(o.Path), keep, 0o644); err != nil {
				fatal(err)
			}
			e.emit(rec{"op": "tear", "path": o.Path, "whole": whole, "rest": rest})
		case "elsewhere":
			cs := randomFileCandles(r, r.Intn(4))
			var name string
			where := r.Intn(5)
			if where == 4 && len(cs) == 0 { // nothing has to be written
				where = r.Intn(4)
			}
			switch where {
			case 0:
				name = filepath.Join(dir, "missing", "file")
			case 1:
				name = dir
			case 2:
				name = ""
			case 3:
				plain := filepath.Join(dir, "plain")
				os.WriteFile(plain, nil, 0o644)
				name = filepath.Join(plain, "below")
			case 4:
				name = filepath.Join(dir, "full")
				if _, err := os.Lstat(name); err != nil {
					if err := os.Symlink("/dev/full", name); err != nil {
						fatal(err)
					}
				}
			}
			ok = save("elsewhere", name, 1, cs, -1)
		case "missing":
			name := []string{filepath.Join(dir, "nothing"), dir, "", filepath.Join(dir, "no", "where"), filepath.Join(dir, "candles_1_min", "x")}[r.Intn(5)]
			ok = load("missing", name, 1)
		}
		if !ok {
			return
		}
	}
	for p := 1; p <= 4; p++ {
		if !load("load", path(p), p) {
			return
		}
	}
}

// runCut saves two series, puts their files one behind the other and loads what is left of that after some byte.
func runCut(e *env, n, m int, cut func(size int) []int, r *rand.Rand) {
	dir, err := os.MkdirTemp(e.scratch, "cut")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(dir)
	a, b := randomFileCandles(r, n), randomFileCandles(r, m)
	if n > 0 && m > 0 && r.Intn(4) == 0 { // the second series goes on where the first ends
		b[0] = a[n-1]
	}
	var all []byte
	var errs [2]error
	for k, cs := range [][]mCandle{a, b} {
		in := []market.Candle{}
		for _, c := range cs {
			in = append(in, fileCandle(c))
		}
		k, name := k, filepath.Join(dir, fmt.Sprint("part", k))
		if !e.call("cut", func() { errs[k] = market.SaveCandlesToFile(&in, name) }) {
			return
		}
		text, _ := os.ReadFile(name)
		all = append(all, text...)
	}
	lens := []int{}
	for _, line := range bytes.SplitAfter(all, []byte("\n")) {
		if len(line) > 0 {
			lens = append(lens, len(line))
		}
	}
	for _, at := range cut(len(all)) {
		name := filepath.Join(dir, "whole")
		if err := os.WriteFile(name, all[:at], 0o644); err != nil {
			fatal(err)
		}
		var out []market.Candle
		var err error
		if !e.call("cut", func() { out, err = market.LoadCandlesFromFile(name) }) {
			return
		}
		cs := []mCandle{}
		for _, c := range out {
			cs = append(cs, fileBack(c))
		}
		e.emit(rec{"op": "cut", "a": a, "b": b, "errA": code(errs[0]), "errB": code(errs[1]), "lens": lens, "at": at, "candles": cs, "err": code(err)})
	}
}

func driveCut(e *env) {
	e.behaviours(func(id int, raw []byte) {
		var b struct {
			N  int `json:"n"`
			M  int `json:"m"`
			At int `json:"at"`
		}
		decode(raw, &b)
		runCut(e, b.N, b.M, func(size int) (out []int) { // every so many bytes, from another one each time
			for at := b.At % 13; at <= size; at += 13 {
				out = append(out, at)
			}
			return
		}, e.rng())
	})
	e.randoms(func(id int, r *rand.Rand) {
		n, m := r.Intn(6), r.Intn(6)
		large := r.Intn(20) == 0
		if large { // more than the buffer of a reader
			n, m = r.Intn(200), r.Intn(200)
		}
		runCut(e, n, m, func(size int) (out []int) {
			if large {
				return []int{size, r.Intn(size + 1)}
			}
			for at := r.Intn(5); at <= size; at += 1 + r.Intn(5) {
				out = append(out, at)
			}
			return append(out, size)
		}, r)
	})
}

func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func driveFile(e *env) {
	signal.Ignore(syscall.SIGXFSZ)
	e.behaviours(func(id int, raw []byte) {
		var ops []fileOp
		decode(raw, &ops)
		runFile(e, ops, e.rng())
	})
	e.randoms(func(id int, r *rand.Rand) {
		var ops []fileOp
		if k := id - randomBase; e.prop == "C22" && k < 3*len(damages) { // every damage at the start, inside and at the end
			ops = []fileOp{{Op: "save", Path: 1, Len: 3}, {Op: "save", Path: 2, Len: 2}, {Op: "damage", Path: 1, At: []int{0, 1, 3}[k/len(damages)], Kind: "x"}}
			e.damageCase(ops, k%len(damages))
			return
		}
		for n := 2 + r.Intn(14); n > 0; n-- {
			o := fileOp{Op: "save", Path: 1 + r.Intn(4), Len: r.Intn(12), At: -1, Kind: "r"}
			switch r.Intn(14) {
			case 0, 1, 2, 3:
				o.Op = "load"
			case 4:
				o.Op, o.At = "damage", r.Intn(6)
			case 5:
				o.Op = "tear"
			case 6:
				o.Op = "elsewhere"
			case 7:
				o.Op = "missing"
			case 8:
				o.Op, o.Len = "fail", 1+r.Intn(20)
				if r.Intn(4) == 0 {
					o.Len = 500
				}
			case 9:
				if r.Intn(6) == 0 {
					o.Len = 200 + r.Intn(2500)
				}
			}
			if e.prop == "C21" && (o.Op == "damage" || o.Op == "elsewhere" || o.Op == "missing") {
				o.Op = "save"
			}
			ops = append(ops, o)
		}
		runFile(e, ops, r)
	})
}

// damageCase runs ops with one particular malformed line.
func (e *env) damageCase(ops []fileOp, k int) {
	old := damages
	damages = damages[k : k+1]
	defer func() { damages = old }()
	runFile(e, ops, e.rng())
}
