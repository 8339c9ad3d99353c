package main

import (
	"math"
	"math/rand"

	"github.com/vanclief/finmod/indicators"
	"github.com/vanclief/finmod/market"
)

func init() {
	drivers["average"] = driveAverage
	drivers["rsi"] = driveRSI
	drivers["ewv"] = driveEWV
	drivers["causal"] = driveCausal
	drivers["args"] = driveArgs
}

var units = []float64{1, 0.01, 0.5, 1e-8, 1e5, 0.1, 3, 1.0 / 3, 7e-11, 1e-5, 12345678.9}

// shuffleTimes changes the times of a third of the series; an indicator has no business with their order.
func shuffleTimes(cs []market.Candle, r *rand.Rand) {
	switch r.Intn(9) {
	case 0:
		for i, j := 0, len(cs)-1; i < j; i, j = i+1, j-1 {
			cs[i].Time, cs[j].Time = cs[j].Time, cs[i].Time
		}
	case 1:
		r.Shuffle(len(cs), func(i, j int) { cs[i].Time, cs[j].Time = cs[j].Time, cs[i].Time })
	case 2:
		for k := range cs {
			cs[k].Time = 0
		}
	}
}

// closesToCandles gives candles with the closes s x unit; the other fields are unrelated.
func closesToCandles(s []int, unit float64, r *rand.Rand) []market.Candle {
	out := make([]market.Candle, len(s))
	t := startTimes[r.Intn(len(startTimes))]
	step := []int64{60, 60, 60, 1, 3600, 86400, 7}[r.Intn(7)]
	for k, c := range s {
		out[k] = market.Candle{Time: t, Open: r.Float64() * 1000 * unit, High: (1000 + r.Float64()*1000) * unit, Low: -r.Float64() * 500 * unit, Close: float64(c) * unit, Volume: r.Float64() * 1e4}
		t += step * int64(1+r.Intn(2))
	}
	if r.Intn(2) == 0 {
		litter(out, unit, r)
	}
	return out
}

// idle takes away the volume of some candles; only the closes count for an average.
func idle(cs []market.Candle, r *rand.Rand) {
	some := r.Intn(4)
	for k := range cs {
		if some == 0 && r.Intn(3) == 0 || some == 1 {
			cs[k].Volume = 0
		}
		if some < 2 && r.Intn(5) == 0 {
			cs[k].Open, cs[k].High, cs[k].Low = cs[k].Close, cs[k].Close, cs[k].Close
		}
		if some < 2 && r.Intn(9) == 0 {
			cs[k].High, cs[k].Low = cs[k].Low, cs[k].High
		}
	}
}

// lopsidedCloses move by much in one direction and by one unit in the other.
func lopsidedCloses(r *rand.Rand, n, p int) []int {
	s := make([]int, n)
	sign, rare := 1-2*r.Intn(2), 1+r.Intn(2*p)
	for k := 1; k < n; k++ {
		d := sign * r.Intn(1900/p+1)
		if r.Intn(rare+1) == 0 {
			d = -sign
		}
		s[k] = s[k-1] + d
	}
	return s
}

// spare copies candles into a slice with unrelated candles behind its end.
func spare(cs []market.Candle, n int, r *rand.Rand) []market.Candle {
	out := make([]market.Candle, len(cs), len(cs)+n)
	copy(out, cs)
	rest := out[len(cs):cap(out)]
	for k := range rest {
		rest[k] = market.Candle{Time: r.Int63n(1e9), Open: r.Float64() * 1e6, High: r.Float64() * 1e6, Low: r.Float64() * 1e6, Close: r.Float64() * 1e6, Volume: 1}
	}
	return out
}

func largest(s []int) int {
	m := 1
	for _, x := range s {
		if x > m {
			m = x
		}
		if -x > m {
			m = -x
		}
	}
	return m
}

// scaleFor is the number of fixed-point steps per unit that keeps products in range.
func scaleFor(m, p int) int {
	s := 1
	for s < 1e7 && float64(m)*float64(s)*10*float64(p+1) < 6e8 {
		s *= 10
	}
	return s
}

func fixed(v, unit float64, scale int) int {
	return grid(v/unit*float64(scale), 1, 0.6)
}

func averageOf(kind string, cs []market.Candle, p int) ([]float64, error) {
	switch kind {
	case "sma":
		return indicators.MovingAverage(cs, p)
	case "ema":
		return indicators.ExponentialMovingAverage(cs, p)
	}
	return indicators.SmoothedMovingAverage(cs, p)
}

func runAverage(e *env, kind string, s []int, p int, unit float64, r *rand.Rand) {
	cs := closesToCandles(s, unit, r)
	shuffleTimes(cs, r)
	idle(cs, r)
	if r.Intn(2) == 0 {
		cs = spare(cs, 1+r.Intn(20), r)
	}
	var out []float64
	var err error
	if !e.call("average", func() { out, err = averageOf(kind, cs, p) }) {
		return
	}
	m, scale := largest(s), 0
	scale = scaleFor(m, p)
	q, exact := []int{}, []int{}
	den := float64(p)
	for k, v := range out {
		q = append(q, fixed(v, unit, scale))
		switch {
		case kind == "sma":
			den = float64(p)
		case kind == "ema":
			den *= float64(p + 1)
		case k > 0:
			den *= float64(p)
		}
		if float64(m)*den < 3e8 {
			exact = append(exact, grid(v/unit*den, 1, 0.01))
		}
	}
	e.emit(rec{"op": "average", "kind": kind, "s": s, "p": p, "err": code(err), "q": q, "exact": exact, "scale": scale, "unit": unit})
}

// randomCloses is a random series of n closes with changes of at most step.
func randomCloses(r *rand.Rand, n, step, limit int) []int {
	s := make([]int, n)
	x := r.Intn(limit + 1)
	style := r.Intn(7)
	for k := range s {
		d := r.Intn(2*step+1) - step
		switch style {
		case 0: // long flat stretches
			if r.Intn(4) != 0 {
				d = 0
			}
		case 1: // mostly rising
			if d < 0 && r.Intn(10) != 0 {
				d = -d
			}
		case 2: // mostly falling
			if d > 0 && r.Intn(10) != 0 {
				d = -d
			}
		case 3: // only rising
			if d < 0 {
				d = -d
			}
		case 4:
			if d > 0 {
				d = -d
			}
		}
		y := x + d
		if style != 3 && style != 4 && (y < -limit/10 || y > limit) {
			y = x - d
		}
		if y < -2*limit || y > 3*limit {
			y = x
		}
		x = y
		s[k] = x
	}
	return s
}

// lifted adds the same amount to all closes.
func lifted(s []int, by int) []int {
	for k := range s {
		s[k] += by
	}
	return s
}

func driveAverage(e *env) {
	kind := map[string]string{"C23": "sma", "C24": "ema", "C25": "smma"}[e.prop]
	e.behaviours(func(id int, raw []byte) {
		var b struct {
			S []int `json:"s"`
			P int   `json:"p"`
		}
		decode(raw, &b)
		r := e.rng()
		runAverage(e, kind, b.S, b.P, units[(id+int(e.seed))%len(units)], r)
		for n := b.P; n < len(b.S); n++ { // and its prefixes
			if id%(len(b.S)-n+2) == 0 {
				runAverage(e, kind, b.S[:n], b.P, units[r.Intn(len(units))], r)
			}
		}
	})
	e.randoms(func(id int, r *rand.Rand) {
		if r.Intn(12) == 0 { // closes that hardly differ
			n := 1 + r.Intn(30)
			runAverage(e, kind, lifted(randomCloses(r, n, 1+r.Intn(5), 20), 100000+r.Intn(900000)), 1+r.Intn(n), units[r.Intn(len(units))], r)
			return
		}
		n := 1 + r.Intn(40)
		switch r.Intn(6) {
		case 0:
			n = 41 + r.Intn(260)
			if r.Intn(8) == 0 {
				n = 300 + r.Intn(900)
			}
		case 1:
			n = 1 + r.Intn(8)
		}
		p := 1 + r.Intn(n)
		switch r.Intn(8) {
		case 0:
			p = n
		case 1:
			p = 1
		case 2:
			if n > 1 {
				p = n - 1
			}
		}
		runAverage(e, kind, randomCloses(r, n, 1+r.Intn(60), 20+r.Intn(500)), p, units[r.Intn(len(units))], r)
	})
}

func runRSI(e *env, s []int, p int, unit float64, r *rand.Rand) {
	cs := closesToCandles(s, unit, r)
	shuffleTimes(cs, r)
	idle(cs, r)
	if r.Intn(2) == 0 {
		cs = spare(cs, 1+r.Intn(20), r)
	}
	var out []float32
	var err error
	if !e.call("rsi", func() { out, err = indicators.RSI(cs, p) }) {
		return
	}
	lo, hi := []int{}, []int{}
	for _, v := range out {
		x := float64(v) * 1e4
		lo = append(lo, grid(math.Floor(x), 1, 0.1))
		hi = append(hi, grid(math.Ceil(x), 1, 0.1))
	}
	e.emit(rec{"op": "rsi", "s": s, "p": p, "err": code(err), "lo": lo, "hi": hi, "unit": unit})
}

func driveRSI(e *env) {
	e.behaviours(func(id int, raw []byte) {
		var b struct {
			S []int `json:"s"`
			P int   `json:"p"`
		}
		decode(raw, &b)
		r := e.rng()
		runRSI(e, b.S, b.P, units[(id+int(e.seed))%len(units)], r)
	})
	e.randoms(func(id int, r *rand.Rand) {
		n := 14 + r.Intn(40)
		switch r.Intn(6) {
		case 0:
			n = 54 + r.Intn(250)
			if r.Intn(8) == 0 {
				n = 300 + r.Intn(900)
			}
		case 1:
			n = 14
		}
		p := 1 + r.Intn(n-1)
		switch r.Intn(8) {
		case 0:
			p = n - 1
		case 1:
			p = 1
		case 2:
			p = 14
			if n == 14 {
				p = 13
			}
		}
		most := 900 / p
		if most < 1 {
			most = 1
		}
		if most > 300 {
			most = 300
		}
		if r.Intn(6) == 0 && p > 1 {
			runRSI(e, lopsidedCloses(r, n, p), p, units[r.Intn(len(units))], r)
			return
		}
		s := randomCloses(r, n, 1+r.Intn(most), 100+r.Intn(800))
		if r.Intn(8) == 0 {
			s = lifted(s, []int{1000000, 50000000, -5000}[r.Intn(3)])
		}
		runRSI(e, s, p, units[r.Intn(len(units))], r)
	})
}

func runEWV(e *env, rs []int, b, d int, unit float64, r *rand.Rand) {
	cs := make([]market.Candle, len(rs))
	t, deep := startTimes[r.Intn(len(startTimes))], r.Intn(2)*r.Intn(300)
	for k, x := range rs {
		low := float64(r.Intn(100)-deep) * unit
		cs[k] = market.Candle{Time: t + int64(k)*60, Open: r.Float64() * 300 * unit, Low: low, High: low + float64(x)*unit, Close: r.Float64() * 300 * unit, Volume: r.Float64() * 100}
	}
	if r.Intn(2) == 0 {
		littered(cs, unit, r)
	}
	shuffleTimes(cs, r)
	beta := float64(b) / float64(d)
	m := largest(rs)
	scale := scaleFor(m, 2*d)
	if b < 0 || b > d { // the values may grow
		scale = scaleFor(100*m, 2*d)
	}
	q, exact := []int{}, []int{}
	zero := true
	den := 1.0
	for n := 0; n <= len(cs); n++ {
		var v float64
		part := append(make([]market.Candle, 0, n), cs[:n]...)
		switch r.Intn(4) {
		case 0:
			part = cs[:n]
		case 1:
			part = spare(part, 3, r)
		}
		if n == 0 && r.Intn(2) == 0 {
			part = nil
		}
		if !e.call("ewv", func() { v = indicators.ExponentialWeightedVolatility(part, beta) }) {
			return
		}
		q = append(q, fixed(v, unit, scale))
		if n == 0 {
			zero = v == 0
			continue
		}
		den *= float64(d)
		if float64(m)*den < 3e8 && b >= 0 && b <= d {
			exact = append(exact, grid(v/unit*den, 1, 0.01))
		}
	}
	e.emit(rec{"op": "ewv", "r": rs, "b": b, "d": d, "q": q, "exact": exact, "zero": zero, "scale": scale, "unit": unit})
}

func driveEWV(e *env) {
	e.behaviours(func(id int, raw []byte) {
		var b struct {
			R []int `json:"r"`
			B int   `json:"b"`
			D int   `json:"d"`
		}
		decode(raw, &b)
		runEWV(e, b.R, b.B, b.D, units[(id+int(e.seed))%len(units)], e.rng())
	})
	e.randoms(func(id int, r *rand.Rand) {
		n := 1 + r.Intn(30)
		if r.Intn(8) == 0 {
			n = 31 + r.Intn(120)
		}
		if r.Intn(60) == 0 {
			n = 150 + r.Intn(900)
		}
		d := []int{1, 2, 3, 7, 10, 16, 20, 100}[r.Intn(8)]
		b := r.Intn(d + 1)
		if r.Intn(3) == 0 || n > 100 && r.Intn(2) == 0 { // old candles keep their weight
			d = []int{10, 20, 50, 100, 200}[r.Intn(5)]
			b = d - 1 - r.Intn(2)
		}
		if n < 6 && r.Intn(6) == 0 { // the fold holds for any beta
			b = []int{-1, d + 1}[r.Intn(2)]
		}
		most := 1 + r.Intn(200)
		inverted := r.Intn(4) == 0 // highs below the lows
		rs := make([]int, n)
		for k := range rs {
			rs[k] = r.Intn(most + 1)
			if r.Intn(5) == 0 {
				rs[k] = 0
			}
			if inverted && r.Intn(3) == 0 {
				rs[k] = -rs[k]
			}
		}
		runEWV(e, rs, b, d, units[r.Intn(len(units))], r)
	})
}

type outcome struct {
	Err    string `json:"err"`
	Values []int  `json:"values"`
}

func runIndicator(e *env, t interned, kind string, cs []market.Candle, p int, o *outcome) bool {
	return e.call("causal", func() {
		o.Values = []int{}
		var err error
		switch kind {
		case "rsi":
			var v []float32
			v, err = indicators.RSI(cs, p)
			for _, x := range v {
				o.Values = append(o.Values, t.id(math.Float32bits(x)))
			}
		case "ewv":
			o.Values = append(o.Values, t.id(math.Float64bits(indicators.ExponentialWeightedVolatility(cs, float64(p)/20))))
		case "fractals":
			for _, f := range indicators.WilliamFractals(cs) {
				o.Values = append(o.Values, t.id(f))
			}
		default:
			var v []float64
			v, err = averageOf(kind, cs, p)
			for _, x := range v {
				o.Values = append(o.Values, t.id(math.Float64bits(x)))
			}
		}
		o.Err = code(err)
	})
}

func runCausal(e *env, kind string, s []int, p int, unit float64, r *rand.Rand) {
	cs := closesToCandles(s, unit, r)
	for k := range cs { // few distinct levels, so that there are fractals
		cs[k].High = float64(300+s[k]+r.Intn(4)) * unit
		cs[k].Low = float64(s[k]-r.Intn(4)) * unit
	}
	shuffleTimes(cs, r)
	idle(cs, r)
	t := interned{}
	whole := spare(cs, 5, r)
	all := whole[:cap(whole)]
	before := t.id(append([]market.Candle{}, all...))
	var full, again outcome
	if !runIndicator(e, t, kind, whole, p, &full) {
		return
	}
	parts := [][]outcome{}
	for j := 0; j < 6; j++ {
		n := r.Intn(len(cs) + 1)
		switch j {
		case 0:
			n = len(cs) - 1
		case 1:
			n = len(cs) - 2
		case 2:
			n = p
		case 3:
			n = p + 1
		}
		if n < 0 || n > len(cs) {
			continue
		}
		same := make([]outcome, 4)
		slices := [][]market.Candle{
			append(make([]market.Candle, 0, n), cs[:n]...),
			whole[:n],
			spare(cs[:n], 1+r.Intn(8), r),
			whole[:n:n],
		}
		for k, sl := range slices {
			if !runIndicator(e, t, kind, sl, p, &same[k]) {
				return
			}
		}
		parts = append(parts, same)
	}
	if !runIndicator(e, t, kind, whole, p, &again) {
		return
	}
	e.emit(rec{"op": "causal", "kind": kind, "s": s, "p": p, "full": full, "again": again, "parts": parts, "before": before, "after": t.id(append([]market.Candle{}, all...))})
}

var indicatorKinds = []string{"sma", "ema", "smma", "rsi", "ewv", "fractals"}

func driveCausal(e *env) {
	e.behaviours(func(id int, raw []byte) {
		var b struct {
			S []int `json:"s"`
			P int   `json:"p"`
		}
		decode(raw, &b)
		kind := indicatorKinds[(id/e.every+int(e.seed))%len(indicatorKinds)]
		if kind == "rsi" && len(b.S) < 14 {
			kind = "sma"
		}
		runCausal(e, kind, b.S, b.P, units[(id+int(e.seed))%len(units)], e.rng())
	})
	e.randoms(func(id int, r *rand.Rand) {
		kind := indicatorKinds[id%len(indicatorKinds)]
		n := 15 + r.Intn(30)
		lift := 0
		if r.Intn(8) == 0 {
			lift = []int{100000, 1000000, -500}[r.Intn(3)]
		}
		if r.Intn(4) == 0 {
			n = 3 + r.Intn(20)
		}
		if r.Intn(12) == 0 {
			n = 60 + r.Intn(150)
			if r.Intn(4) == 0 {
				n = 210 + r.Intn(900)
			}
		}
		p := 1 + r.Intn(n)
		if r.Intn(2) == 0 {
			p = 1 + r.Intn(5)
		}
		runCausal(e, kind, lifted(randomCloses(r, n, 1+r.Intn(10), 20+r.Intn(200)), lift), p, units[r.Intn(len(units))], r)
	})
}

func runArgs(e *env, kind string, n, p int, r *rand.Rand) {
	var cs []market.Candle
	if n >= 0 {
		unit := units[r.Intn(len(units))]
		cs = closesToCandles(randomCloses(r, n, 1+r.Intn(20), 10+r.Intn(300)), unit, r)
		shuffleTimes(cs, r)
		idle(cs, r)
		if r.Intn(2) == 0 {
			cs = spare(cs, 40, r)
		}
	}
	var err error
	count := 0
	if !e.call("args", func() {
		if kind == "rsi" {
			var v []float32
			v, err = indicators.RSI(cs, p)
			count = len(v)
		} else {
			var v []float64
			v, err = averageOf(kind, cs, p)
			count = len(v)
		}
	}) {
		return
	}
	if p > 1e9 {
		p = 1e9
	}
	if p < -1e9 {
		p = -1e9
	}
	e.emit(rec{"op": "args", "kind": kind, "n": n, "p": p, "err": code(err), "count": count})
}

func driveArgs(e *env) {
	e.behaviours(func(id int, raw []byte) {
		var b struct {
			Kind string `json:"kind"`
			N    int    `json:"n"`
			P    int    `json:"p"`
		}
		decode(raw, &b)
		runArgs(e, b.Kind, b.N, b.P, e.rng())
	})
	e.randoms(func(id int, r *rand.Rand) {
		n := r.Intn(300) - 1
		if r.Intn(40) == 0 {
			n = 300 + r.Intn(1500)
		}
		p := n + r.Intn(5) - 2
		switch r.Intn(4) {
		case 0:
			p = []int{math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, math.MinInt64 + 1, math.MaxInt32, math.MaxInt32 + 1, math.MinInt32, -1, 0, 1, 1 << 40, -(1 << 40)}[r.Intn(12)]
		case 1:
			p = r.Intn(400) - 50
		}
		runArgs(e, indicatorKinds[r.Intn(4)], n, p, r)
	})
}
