package main

import (
	"fmt"
	"math/rand"
	"strings"
	"time"

	"github.com/vanclief/finmod/market"
)

// A manner is what the trades and positions of a case have and no property depends on: when they happen, in which
// zone the times are given, how identifiers look, which notes the owner keeps, which pair is traded.
type manner struct {
	first time.Time
	step  time.Duration
	id    func(n int) string
	exec  string
	notes int
	kinds int     // where the order types start
	fee   float64 // cost of a trade for each unit of its value
}

var usual = manner{first: time.Date(2021, 3, 4, 5, 6, 7, 89, time.UTC), step: 37 * time.Minute, id: func(n int) string { return fmt.Sprintf("t%d", n) }, fee: 1.001}

var now = usual

// idBack gives the number of an identifier handed out in this case.
var idBack = map[string]int{}

func tradeID(n int) string {
	id := now.id(n)
	idBack[id] = n
	return id
}

var firsts = []time.Time{
	usual.first,
	time.Date(2021, 1, 1, 0, 0, 0, 0, time.UTC),
	time.Date(1969, 12, 31, 20, 0, 0, 0, time.UTC), // crosses the epoch
	time.Date(2038, 1, 19, 0, 0, 0, 0, time.UTC),   // crosses 32 bits
	time.Date(2024, 2, 28, 23, 0, 0, 0, time.FixedZone("there", -5*3600)),
	time.Date(2016, 12, 31, 22, 30, 0, 123456789, time.FixedZone("", 5*3600+1800)),
	time.Date(1, 1, 1, 0, 0, 0, 0, time.UTC),
	time.Date(2500, 6, 15, 12, 0, 0, 500000000, time.UTC),
}

var steps = []time.Duration{37 * time.Minute, time.Nanosecond, time.Second, time.Hour, 24 * time.Hour, 1500 * time.Millisecond}

var idForms = []func(n int) string{
	usual.id,
	func(n int) string { return fmt.Sprintf("%08x-4e2b-11ee-be56-%012d", 305419896+n, n) },
	func(n int) string { return fmt.Sprintf("order:%d/fill.%d,x", n/3, n) },
	func(n int) string { return fmt.Sprintf(" %d ", n) },
	func(n int) string { return fmt.Sprint(n) },
	func(n int) string { return strings.Repeat("long_", 30) + fmt.Sprint(n) },
	func(n int) string { return fmt.Sprintf("%%d-%d-é☃", n) },
	func(n int) string { return fmt.Sprintf("T%d\n\"quoted\"", n) },
}

var plainPairs = append([]market.Pair{}, mPairs...)

// dress draws the manner of a case.
func dress(r *rand.Rand) {
	now = usual
	idBack = map[string]int{}
	copy(mPairs, plainPairs)
	if r.Intn(3) == 0 {
		return
	}
	now.first, now.step = firsts[r.Intn(len(firsts))], steps[r.Intn(len(steps))]
	now.id = idForms[r.Intn(len(idForms))]
	now.notes = r.Intn(3)
	now.kinds = r.Intn(len(mOrderTypes))
	now.fee = []float64{1.001, 1, 0.999, 0, 2, 1.25}[r.Intn(6)]
	if r.Intn(2) == 0 {
		now.exec = fillStrings[r.Intn(len(fillStrings))]
	}
}

// timed gives the time of a trade, the usual one if it has none; where time begins, some trades are not dated.
func timed(t, usual int, r *rand.Rand) int {
	if now.first.IsZero() && r.Intn(3) == 0 {
		return 0
	} else if t == 0 {
		return usual
	}
	return t
}

// anotherPair makes the pair of the position another one; the usual one takes its place.
func anotherPair(r *rand.Rand) {
	if k := 2 + r.Intn(len(mPairs)-2); r.Intn(3) == 0 {
		mPairs[1], mPairs[k] = mPairs[k], mPairs[1]
	}
}

// note sets what the owner keeps on a position.
func note(p *market.Position, m money, r *rand.Rand) {
	if now.notes == 0 {
		return
	}
	word := func() string { return fillStrings[r.Intn(len(fillStrings))] }
	p.TakeProfit = market.PositionCloseOrder{Price: float64(r.Intn(40)) * m.pu, OrderID: word()}
	p.StopLoss = market.PositionCloseOrder{Price: float64(r.Intn(45)-5) * m.pu, OrderID: word()}
	p.ExecutionID, p.Data = word(), word()
	if now.notes == 2 && r.Intn(2) == 0 {
		p.ID = word()
	}
}

// litter sets volumes and opens of candles in one of several manners; indicators have no business with them.
func litter(cs []market.Candle, unit float64, r *rand.Rand) {
	volume := []func() float64{
		func() float64 { return r.Float64() * 1e4 },
		func() float64 { return 0 },
		func() float64 { return float64(r.Intn(100)) },
		func() float64 { return r.Float64() * 1e-9 },
		func() float64 { return 1e12 * float64(1+r.Intn(9)) },
		func() float64 { return 7 },
		func() float64 { return float64(r.Intn(3)) * 1e10 },
		func() float64 { return -float64(r.Intn(3)) },
	}[r.Intn(8)]
	style := r.Intn(6)
	for k := range cs {
		c := &cs[k]
		c.Volume = volume()
		switch style {
		case 0:
			c.Open = 0
		case 1:
			c.Open = []float64{c.High, c.Low, c.Close}[r.Intn(3)]
		case 2:
			c.Open = float64(r.Intn(400)-200) * unit
		case 3:
			c.Open = c.Close
		case 4:
			if k > 0 {
				c.Open = cs[k-1].Close
			}
		}
	}
}

// littered does the same for candles whose close is not used.
func littered(cs []market.Candle, unit float64, r *rand.Rand) {
	style := r.Intn(6)
	for k := range cs {
		c := &cs[k]
		switch style {
		case 0:
			c.Close = 0
		case 1:
			c.Close = []float64{c.High, c.Low}[r.Intn(2)]
		case 2:
			c.Close = float64(r.Intn(400)-200) * unit
		case 3:
			c.Close = 1e12
		}
	}
	litter(cs, unit, r)
}

// startTimes are instants at which a series may begin.
var startTimes = []int64{1619827200, 1619827200, 0, 60, -7200, 1619827201, 951782400, 4102444800, 1 << 31, 1 << 40, -62135596800}
