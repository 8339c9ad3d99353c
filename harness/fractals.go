package main

import (
	"math/rand"

	"github.com/vanclief/finmod/indicators"
	"github.com/vanclief/finmod/market"
)

func init() { drivers["fractals"] = driveFractals }

// runFractals asks for the fractals of growing prefixes of s ([time, high, low]).
func runFractals(e *env, s [][3]int, unit float64, step func() int, r *rand.Rand) {
	cs := make([]market.Candle, len(s))
	for k, c := range s {
		cs[k] = market.Candle{Time: int64(c[0]), Open: r.Float64() * 50, High: float64(c[1]) * unit, Low: float64(c[2]) * unit, Close: r.Float64() * 50, Volume: r.Float64()}
	}
	if r.Intn(2) == 0 {
		littered(cs, unit, r)
	}
	e.emit(rec{"op": "start", "unit": unit})
	for at, n := 0, 0; ; {
		part := append(make([]market.Candle, 0, n), cs[:n]...)
		switch r.Intn(4) {
		case 0:
			part = spare(part, 4, r)
		case 1:
			part = cs[:n]
		}
		var out []indicators.WilliamFractal
		if !e.call("grow", func() { out = indicators.WilliamFractals(part) }) {
			return
		}
		found := [][3]interface{}{}
		for _, f := range out {
			found = append(found, [3]interface{}{grid(float64(f.Time), 1, 0.1), grid(f.Price, unit, unit*1e-6), string(f.Type)})
		}
		more := s[at:n]
		if more == nil {
			more = [][3]int{}
		}
		e.emit(rec{"op": "grow", "more": more, "out": found})
		if n == len(s) {
			return
		}
		at, n = n, n+step()
		if n > len(s) {
			n = len(s)
		}
	}
}

func driveFractals(e *env) {
	e.behaviours(func(id int, raw []byte) {
		var b struct {
			S [][3]int `json:"s"`
		}
		decode(raw, &b)
		r := e.rng()
		first := true
		runFractals(e, b.S, units[(id+int(e.seed))%len(units)], func() int {
			if first {
				first = false
				return 4
			}
			return 1
		}, r)
	})
	e.randoms(func(id int, r *rand.Rand) {
		n := r.Intn(30)
		if r.Intn(5) == 0 {
			n = 30 + r.Intn(60)
		}
		equal, big := 3, 1
		if r.Intn(5) == 0 { // long plateaus
			equal = 1 + r.Intn(2)
		}
		if r.Intn(80) == 0 {
			n, big = 100+r.Intn(900), 40
		}
		t := r.Intn(100000) * 60
		switch r.Intn(4) {
		case 0:
			t = 1619827200 + r.Intn(2)
		case 1:
			t = -r.Intn(3000) * 60
		}
		levels := 2 + r.Intn(8)
		if r.Intn(4) == 0 {
			levels = 1000
		}
		sign := 1
		if r.Intn(6) == 0 {
			sign = -1
		}
		s := make([][3]int, n)
		for k := range s {
			t += 60 * (1 + r.Intn(3)*r.Intn(2))
			h, l := 50+r.Intn(levels), 50-r.Intn(levels)
			switch {
			case k > 0 && (r.Intn(3) == 0 || equal < 3 && r.Intn(12) >= equal): // equal levels
				h = sign * s[k-1][1]
			case k > 1 && r.Intn(4) == 0:
				h = sign * s[k-2][1]
			}
			switch {
			case k > 0 && (r.Intn(3) == 0 || equal < 3 && r.Intn(12) >= equal):
				l = sign * s[k-1][2]
			case k > 1 && r.Intn(4) == 0:
				l = sign * s[k-2][2]
			}
			s[k] = [3]int{t, sign * h, sign * l}
		}
		runFractals(e, s, units[r.Intn(len(units))], func() int { return big * (1 + r.Intn(3)*r.Intn(2)) }, r)
	})
}
