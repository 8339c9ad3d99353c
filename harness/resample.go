package main

import (
	"math"
	"math/rand"

	"github.com/vanclief/finmod/market"
)

func init() { drivers["resample"] = driveResample }

type mCandle [6]int

// A series scale: where the full hour is, which prices stand for 1..max, and the volume unit.
type series struct {
	base  int64
	price func(i int) float64
	back  map[float64]int
	unit  float64 // volume unit of the input
	vden  int     // results are multiples of vden input units
}

var hours = []int64{1619827200, 0, 1600000200 - 1600000200%3600, 4102444800, -3600 * 7000, 951782400, 1709164800, 32503680000}

var seriesTables = append([]func(i int) float64{
	func(i int) float64 { return float64(i) - 20.5 },
	func(i int) float64 { return -1000 + float64(i)*0.25 },
}, priceTables...)

var seriesUnits = []struct {
	unit float64
	vden int
}{{1e-5, 1}, {1e-6, 10}, {1, 1}, {0.5, 1}, {0.125, 1}, {1e-7, 100}, {100, 1}, {1e6, 1}, {1e-9, 10000}}

func newSeries(k, max int, exactVolume bool) *series {
	u := seriesUnits[k%len(seriesUnits)]
	if exactVolume && u.vden != 1 {
		u = seriesUnits[0]
	}
	s := &series{base: hours[k%len(hours)], price: seriesTables[k%len(seriesTables)], back: map[float64]int{}, unit: u.unit, vden: u.vden}
	for i := 0; i <= max; i++ {
		s.back[s.price(i)] = i
	}
	return s
}

func (s *series) in(cs []mCandle) []market.Candle {
	out := make([]market.Candle, 0, len(cs))
	for _, c := range cs {
		out = append(out, market.Candle{Time: s.base + int64(c[0]), Open: s.price(c[1]), High: s.price(c[2]), Low: s.price(c[3]), Close: s.price(c[4]), Volume: float64(c[5]) * s.unit})
	}
	return out
}

func (s *series) back1(x float64) int {
	if i, ok := s.back[x]; ok {
		return i
	}
	return off
}

// out gives results; volumes in multiples of vden units (raw = the untouched input unit).
func (s *series) out(cs []market.Candle, raw bool) [][]int {
	res := [][]int{}
	u := s.unit * float64(s.vden)
	if raw {
		u = s.unit
	}
	for _, c := range cs {
		t := c.Time - s.base
		if t > 1e9 || t < -1e9 {
			t = off
		}
		res = append(res, []int{int(t), s.back1(c.Open), s.back1(c.High), s.back1(c.Low), s.back1(c.Close), grid(c.Volume, u, 1e-9+1e-11*math.Abs(c.Volume))})
	}
	return res
}

func runResample(e *env, s *series, cs []mCandle, n int) {
	if cs == nil {
		cs = []mCandle{}
	}
	in := s.in(cs)
	if len(cs) == 0 && e.caseID%2 == 0 {
		in = nil
	}
	if e.prop == "C20" {
		var val int
		if !e.call("min", func() { val = market.GetMinInterval(in) }) {
			return
		}
		e.emit(rec{"op": "min", "s": cs, "val": val})
		return
	}
	before := dump(in)
	var out []market.Candle
	var err error
	if !e.call("resample", func() { out, err = market.ModifyInterval(in, n) }) {
		return
	}
	after := dump(in)
	fps := interned{}
	vden := s.vden
	raw := len(cs) < 2 // returned as it is
	if raw {
		vden = 1
	}
	e.emit(rec{"op": "resample", "s": cs, "n": n, "vden": vden, "err": code(err), "out": s.out(out, raw), "before": fps.id(before), "after": fps.id(after)})
}

// runLocal resamples a series, its beginning, its end, and the series at another time.
func runLocal(e *env, s *series, cs []mCandle, n int, r *rand.Rand) {
	if len(cs) < 2 {
		return
	}
	var full, early, late, later []market.Candle
	var errFull, errEarly, errLate, errLater error
	to, from := 2+r.Intn(len(cs)-1), r.Intn(len(cs)-1)
	by := int64(r.Intn(50000)-20000) * 3600
	if !e.call("local", func() {
		full, errFull = market.ModifyInterval(s.in(cs), n)
		if len(full) > 0 && r.Intn(5) != 0 { // from the start of an interval, if there is one
			k := r.Intn(len(full))
			for j := range cs[:len(cs)-1] {
				if s.base+int64(cs[j][0]) == full[k].Time {
					from = j
				}
			}
		}
		early, errEarly = market.ModifyInterval(s.in(cs[:to]), n)
		late, errLate = market.ModifyInterval(s.in(cs[from:]), n)
		moved := s.in(cs)
		for k := range moved {
			moved[k].Time += by
		}
		later, errLater = market.ModifyInterval(moved, n)
		for k := range later {
			later[k].Time -= by
		}
	}) {
		return
	}
	e.emit(rec{"op": "local", "s": cs, "n": n, "to": to, "from": from + 1, "by": by / 3600,
		"errFull": code(errFull), "errEarly": code(errEarly), "errLate": code(errLate), "errLater": code(errLater),
		"full": s.out(full, false), "early": s.out(early, false), "late": s.out(late, false), "later": s.out(later, false)})
}

func runTwoSteps(e *env, s *series, cs []mCandle, a, b int) {
	in := s.in(cs)
	var mid, two, direct []market.Candle
	var errMid, errTwo, errDirect error
	if !e.call("two", func() {
		mid, errMid = market.ModifyInterval(in, a)
		if errMid == nil {
			two, errTwo = market.ModifyInterval(mid, b)
		}
		direct, errDirect = market.ModifyInterval(s.in(cs), b)
	}) {
		return
	}
	e.emit(rec{"op": "two", "a": a, "b": b, "errMid": code(errMid), "errTwo": code(errTwo), "errDirect": code(errDirect),
		"mid": s.out(mid, false), "two": s.out(two, false), "direct": s.out(direct, false)})
}

var divisors = []int{1, 2, 3, 4, 5, 6, 10, 12, 15, 20, 30, 60}

func gapless(cs []mCandle) bool {
	for k := 2; k < len(cs); k++ {
		if cs[k][0]-cs[k-1][0] != cs[1][0]-cs[0][0] {
			return false
		}
	}
	return len(cs) >= 2
}

func driveResample(e *env) {
	e.behaviours(func(id int, raw []byte) {
		var c struct {
			S []mCandle `json:"s"`
			N int       `json:"n"`
		}
		decode(raw, &c)
		s := newSeries(id+int(e.seed), 60, e.prop == "C19")
		if e.prop == "C51" {
			runLocal(e, s, c.S, c.N, e.rng())
			return
		}
		if e.prop != "C19" {
			runResample(e, s, c.S, c.N)
			return
		}
		if !gapless(c.S) || c.N <= 0 || 60%c.N != 0 {
			return
		}
		for _, m := range divisors {
			if m%c.N == 0 {
				runTwoSteps(e, s, c.S, c.N, m)
			}
		}
	})
	e.randoms(func(id int, r *rand.Rand) {
		k := r.Intn(100000)
		s := newSeries(k, 60, e.prop == "C19")
		if e.prop == "C19" {
			b := divisors[r.Intn(len(divisors))]
			a := divisors[r.Intn(len(divisors))]
			for b%a != 0 {
				a = divisors[r.Intn(len(divisors))]
			}
			d := divisors[r.Intn(len(divisors))]
			for a%d != 0 {
				d = divisors[r.Intn(len(divisors))]
			}
			length := 2*a/d + r.Intn(4*b/d+10)
			if length > 400 {
				length = 400
			}
			if r.Intn(60) == 0 {
				length += 300 + r.Intn(900)
			}
			runTwoSteps(e, s, randomCandles(r, r.Intn(180), d, length, 0), a, b)
			return
		}
		d := []int{1, 1, 1, 2, 3, 5, 10, 15, 30, 60, 240, 1440}[r.Intn(12)]
		length := r.Intn(12)
		if r.Intn(3) == 0 {
			length = r.Intn(200)
		}
		if r.Intn(120) == 0 { // days of minutes
			length = 1000 + r.Intn(2500)
		}
		start := r.Intn(120)
		if r.Intn(2) == 0 {
			start -= start % d
		}
		cs := randomCandles(r, start, d, length, []int{0, 10, 30, 70}[r.Intn(4)])
		n := d * []int{1, 2, 3, 4, 5, 6, 7, 12, 15, 24, 30, 60}[r.Intn(12)]
		switch r.Intn(12) {
		case 0:
			n = r.Intn(200) - 20
		case 1:
			n = []int{1, 5, 7, 13, 60, 61, 90, 119, 120, 240, 1440, 10080, 100000, math.MaxInt32}[r.Intn(14)]
		case 2:
			n = []int{0, -1, -5, -60, math.MinInt32}[r.Intn(5)]
		}
		if e.prop == "C18" && r.Intn(3) == 0 { // times that are not on a minute, or the same
			for k := range cs {
				cs[k][0] += r.Intn(60)
			}
			if len(cs) > 1 && r.Intn(2) == 0 {
				cs[1][0] = cs[0][0] + r.Intn(61)
			}
			for k := 1; k < len(cs); k++ {
				if cs[k][0] < cs[k-1][0] {
					cs[k][0] = cs[k-1][0]
				}
			}
		}
		if e.prop == "C20" {
			switch r.Intn(4) {
			case 0:
				r.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
			case 1:
				for k := range cs {
					cs[k][0] += r.Intn(400)
				}
			case 2:
				for i, j := 0, len(cs)-1; i < j; i, j = i+1, j-1 {
					cs[i], cs[j] = cs[j], cs[i]
				}
			}
		}
		if e.prop == "C51" {
			if n > 100000 {
				n = 100000
			}
			runLocal(e, s, cs, n, r)
			return
		}
		if n > math.MaxInt32/60 && e.prop == "C17" {
			n = 100000
		}
		runResample(e, s, cs, n)
	})
}

// randomCandles makes a time-ordered series; gaps is the percentage of missing slots.
func randomCandles(r *rand.Rand, start, d, length, gaps int) []mCandle {
	cs := []mCandle{}
	t := start
	odd := r.Intn(4) == 0                  // some candles open or close outside of their range
	for len(cs) < length && t < 15000000 { // seconds stay below 1e9
		if len(cs) < 2 || r.Intn(100) >= gaps {
			p := r.Intn(40)
			h, l := p+r.Intn(10), p-r.Intn(10)
			if l < 0 {
				l = 0
			}
			c := mCandle{t * 60, p, h, l, l + r.Intn(h-l+1), r.Intn(1000000)}
			if r.Intn(8) == 0 {
				c[5] = 0
				if r.Intn(2) == 0 { // nothing traded
					c[2], c[3], c[4] = p, p, p
				}
			}
			if odd && r.Intn(3) == 0 {
				c[1+r.Intn(4)] = r.Intn(60)
			}
			cs = append(cs, c)
		} else if r.Intn(20) == 0 && t < 10000000 {
			t += d * r.Intn(2000)
		}
		t += d
	}
	return cs
}
