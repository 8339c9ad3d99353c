package main

import (
	"math/rand"

	"github.com/vanclief/finmod/market"
)

func init() { drivers["means"] = driveMeans }

var meanKinds = []string{"sma", "ema", "smma", "ewv"}
var windowKinds = []string{"sma", "rsi", "fractals"}

// meanCandles have closes s; for the volatility they have ranges s.
func meanCandles(ind string, s []int, unit float64, r *rand.Rand) []market.Candle {
	if ind != "ewv" {
		return barCandles(barsOf(s, r), unit)
	}
	bars := make([]bar, len(s))
	for k, x := range s {
		low := r.Intn(9)
		bars[k] = bar{low + x, low, low + r.Intn(x+1)}
	}
	return barCandles(bars, unit)
}

func plusSeries(s, u []int) []int {
	out := make([]int, len(s))
	for k := range s {
		out[k] = s[k] + u[k]
	}
	return out
}

func runMean(e *env, ind string, s, u []int, p int, unit float64, r *rand.Rand) {
	if ind == "ewv" { // ranges are not negative
		s, u = append([]int{}, s...), append([]int{}, u...)
		for k := range s {
			s[k], u[k] = abs(s[k]), abs(u[k])
		}
	}
	barVolume, barTime = barVolumes[r.Intn(len(barVolumes))], []int64{0, 1619827200, -1800}[r.Intn(3)]
	steps := scaleFor(largest(s)+largest(u)+10, 10)
	out := rec{"op": "mean", "ind": ind, "s": s, "u": u, "p": p, "steps": steps}
	for _, x := range []struct {
		val, err string
		series   []int
	}{{"a", "errA", s}, {"b", "errB", u}, {"sum", "errSum", plusSeries(s, u)}} {
		v, err, ok := values(e, ind, meanCandles(ind, x.series, unit, r), p, unit, steps)
		if !ok {
			return
		}
		out[x.val], out[x.err] = v, err
	}
	e.emit(out)
}

// runWindow removes the first m candles of a series and replaces them by others.
func runWindow(e *env, ind string, s, u []int, p, m int, unit float64, r *rand.Rand) {
	if ind == "rsi" && (len(s)-m < 14 || len(s)-m <= p) || ind == "sma" && len(s)-m < p {
		return
	}
	barVolume, barTime = barVolumes[r.Intn(len(barVolumes))], 0
	steps := scaleFor(largest(s)+largest(u)+10, 10)
	all := barCandles(barsOf(s, r), unit)
	other := append(append([]market.Candle{}, barCandles(barsOf(u, r), unit)[:m]...), all[m:]...)
	tail := append([]market.Candle{}, all[m:]...)
	if r.Intn(2) == 0 {
		tail = all[m:]
	}
	out := rec{"op": "window", "ind": ind, "s": s, "u": u[:m], "m": m, "p": p, "steps": steps}
	a, errA, ok := values(e, ind, all, p, unit, steps)
	if !ok {
		return
	}
	b, errB, ok := values(e, ind, tail, p, unit, steps)
	if !ok {
		return
	}
	c, errC, ok := values(e, ind, other, p, unit, steps)
	if !ok {
		return
	}
	out["a"], out["b"], out["c"], out["errA"], out["errB"], out["errC"] = a, b, c, errA, errB, errC
	e.emit(out)
}

func driveMeans(e *env) {
	e.behaviours(func(id int, raw []byte) {
		var b struct {
			S []int `json:"s"`
			U []int `json:"u"`
			P int   `json:"p"`
		}
		decode(raw, &b)
		r := e.rng()
		unit := units[(id+int(e.seed))%len(units)]
		if e.prop == "C58" {
			runMean(e, meanKinds[(id/e.every+int(e.seed))%len(meanKinds)], b.S, b.U, b.P, unit, r)
			return
		}
		ind := windowKinds[(id/e.every+int(e.seed))%len(windowKinds)]
		m := r.Intn(len(b.S) + 1)
		if ind == "rsi" {
			b.S = append(b.S, randomCloses(r, 14, 3, 10)...)
			b.U = append(b.U, randomCloses(r, 14, 3, 10)...)
		}
		runWindow(e, ind, b.S, b.U, b.P, m, unit, r)
	})
	e.randoms(func(id int, r *rand.Rand) {
		n := 2 + r.Intn(44)
		if r.Intn(10) == 0 {
			n = 60 + r.Intn(240)
		}
		p := 1 + r.Intn(n)
		if r.Intn(2) == 0 {
			p = 1 + r.Intn(min2(5, n))
		}
		limit := 20 + r.Intn(300)
		s, u := randomCloses(r, n, 1+r.Intn(20), limit), randomCloses(r, n, 1+r.Intn(20), limit)
		if style := r.Intn(6); style < 4 {
			at := r.Intn(n)
			for k := range u {
				switch {
				case style == 0: // one close is different
					u[k] *= nonZeroAt(k, at)
				case style == 1: // from some candle on
					u[k] *= nonZeroAt(k/(at+1), 0)
				case style == 2: // less
					u[k] = -u[k]
				case style == 3: // only some
					u[k] *= r.Intn(2)
				}
			}
		}
		unit := units[r.Intn(len(units))]
		if e.prop == "C58" {
			runMean(e, meanKinds[id%len(meanKinds)], s, u, p, unit, r)
			return
		}
		ind := windowKinds[id%len(windowKinds)]
		m := r.Intn(n + 1)
		if ind != "fractals" {
			for n < 15 {
				s, u, n = append(s, r.Intn(limit)), append(u, r.Intn(limit)), n+1
			}
			p, m = 1+r.Intn(min2(p, n-1)), r.Intn(n)
			if ind == "rsi" {
				m = r.Intn(n - 13)
			}
			p = min2(p, n-m)
			if p == n-m && p > 1 {
				p--
			}
		}
		runWindow(e, ind, s, u, p, m, unit, r)
	})
}

func nonZeroAt(k, at int) int {
	if k == at {
		return 1
	}
	return 0
}
