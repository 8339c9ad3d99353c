package main

import (
	"math/rand"

	"github.com/vanclief/finmod/indicators"
	"github.com/vanclief/finmod/market"
)

func init() { drivers["symmetry"] = driveSymmetry }

// bar is a candle of the model: high, low and close in units.
type bar [3]int

func barsOf(s []int, r *rand.Rand) []bar {
	out := make([]bar, len(s))
	spread := 1 + r.Intn(6)
	for k, c := range s {
		out[k] = bar{c + r.Intn(spread), c - r.Intn(spread), c}
	}
	return out
}

// barVolume and barTime are the same for a series and its image.
var barVolume = func(k int) float64 { return float64(k) }
var barTime = int64(0)

var barVolumes = []func(k int) float64{
	barVolume,
	func(k int) float64 { return 0 },
	func(k int) float64 { return float64(k%5) * 0.37 },
	func(k int) float64 { return float64(1+k%3) * 1e10 },
	func(k int) float64 { return 1e-9 },
}

func barCandles(bars []bar, unit float64) []market.Candle {
	out := make([]market.Candle, len(bars))
	for k, b := range bars {
		out[k] = market.Candle{Time: barTime + int64(60*(k+1)), Open: float64(b[2]) * unit, High: float64(b[0]) * unit, Low: float64(b[1]) * unit, Close: float64(b[2]) * unit, Volume: barVolume(k)}
	}
	return out
}

func moveBars(bars []bar, kind string, by int) []bar {
	out := make([]bar, len(bars))
	for k, b := range bars {
		switch kind {
		case "shift":
			out[k] = bar{b[0] + by, b[1] + by, b[2] + by}
		case "mirror":
			out[k] = bar{-b[1], -b[0], -b[2]}
		default:
			out[k] = b
		}
	}
	return out
}

// values of an indicator as integers: fixed-point in units, strengths in 1e-4, fractals as rows.
func values(e *env, ind string, cs []market.Candle, p int, unit float64, steps int) (out []interface{}, failed string, ok bool) {
	out = []interface{}{}
	ok = e.call("symmetry", func() {
		var err error
		switch ind {
		case "rsi":
			var v []float32
			v, err = indicators.RSI(cs, p)
			for _, x := range v {
				out = append(out, grid(float64(x)*1e4, 1, 0.6))
			}
		case "ewv":
			out = append(out, fixed(indicators.ExponentialWeightedVolatility(cs, float64(p%20)/20), unit, steps))
		case "fractals":
			for _, f := range indicators.WilliamFractals(cs) {
				out = append(out, []interface{}{grid(float64(f.Time), 1, 0.1), grid(f.Price, unit, unit*1e-6), string(f.Type)})
			}
		default:
			var v []float64
			v, err = averageOf(ind, cs, p)
			for _, x := range v {
				out = append(out, fixed(x, unit, steps))
			}
		}
		failed = code(err)
	})
	return
}

func runSymmetry(e *env, ind string, s []int, p int, kind string, by int, unit, factor float64, r *rand.Rand) {
	bars := barsOf(s, r)
	barVolume, barTime = barVolumes[r.Intn(len(barVolumes))], []int64{0, 1619827200, -1800}[r.Intn(3)]
	moved := moveBars(bars, kind, by)
	other := unit
	if kind == "scale" {
		other = unit * factor
	}
	steps := scaleFor(largest(s)+abs(by)+10, 10)
	a, errA, ok := values(e, ind, barCandles(bars, unit), p, unit, steps)
	if !ok {
		return
	}
	b, errB, ok := values(e, ind, barCandles(moved, other), p, other, steps)
	if !ok {
		return
	}
	e.emit(rec{"op": "symmetry", "ind": ind, "s": s, "p": p, "kind": kind, "by": by, "steps": steps, "a": a, "b": b, "errA": errA, "errB": errB})
}

var factors = []float64{2, 0.5, 7, 0.001, 1e6, 1e-6, 1.1, 1e9}

func driveSymmetry(e *env) {
	e.behaviours(func(id int, raw []byte) {
		var b struct {
			S    []int  `json:"s"`
			P    int    `json:"p"`
			Kind string `json:"kind"`
			By   int    `json:"by"`
		}
		decode(raw, &b)
		r := e.rng()
		ind := indicatorKinds[(id/e.every+int(e.seed))%len(indicatorKinds)]
		if ind == "rsi" {
			b.S = append(randomCloses(r, 8, 3, 10), b.S...)
		}
		runSymmetry(e, ind, b.S, b.P, b.Kind, b.By, units[(id+int(e.seed))%len(units)], factors[id%len(factors)], r)
	})
	e.randoms(func(id int, r *rand.Rand) {
		ind := indicatorKinds[id%len(indicatorKinds)]
		n := 1 + r.Intn(44)
		if r.Intn(10) == 0 {
			n = 60 + r.Intn(240)
			if r.Intn(6) == 0 {
				n = 300 + r.Intn(700)
			}
		}
		p := 1 + r.Intn(n)
		if r.Intn(2) == 0 {
			p = 1 + r.Intn(5)
		}
		limit := 20 + r.Intn(300)
		kind := []string{"scale", "shift", "mirror"}[r.Intn(3)]
		by := 0
		if kind == "shift" {
			by = r.Intn(2*limit) - limit
			if r.Intn(4) == 0 {
				by = -5 * limit // every price is negative
			}
		}
		runSymmetry(e, ind, randomCloses(r, n, 1+r.Intn(20), limit), p, kind, by, units[r.Intn(len(units))], factors[r.Intn(len(factors))], r)
	})
}
