package main

import (
	"math"
	"math/rand"
	"strings"
	"time"

	"github.com/vanclief/finmod/market"
)

func init() {
	drivers["book"] = driveBook
	drivers["overlap"] = driveOverlap
}

// A scale maps the integers of the model to floats. Only the order of prices matters to
// the book, so prices go through strictly increasing tables; volumes are multiples of a unit.
type scale struct {
	price func(i int) float64
	unit  float64
	back  map[float64]int
	max   int
}

var priceTables = []func(i int) float64{
	func(i int) float64 { return float64(i) },
	func(i int) float64 { return 100.25 + float64(i)*0.01 },
	func(i int) float64 { return math.Float64frombits(math.Float64bits(27123.45) + uint64(i)) },
	func(i int) float64 { return 1e-8 * math.Pow(3, float64(i)) },
	func(i int) float64 { return 1e12 + float64(i) },
	func(i int) float64 { return 0.1 * float64(i) },
	func(i int) float64 { return 99999.5 + float64(i)*1e-7 },
	func(i int) float64 { return 0.9 + float64(i)*0.05 },
	func(i int) float64 { return math.Pow(10, float64(i)/4) },
	func(i int) float64 { return 1e-11 * float64(i) },
}

// signedTables also have prices that are zero or negative, for everything but depth queries.
var signedTables = append([]func(i int) float64{
	func(i int) float64 { return float64(i-4) * 0.5 },
	func(i int) float64 { return -1e6 + float64(i)*0.25 },
}, priceTables...)

var volumeUnits = []float64{1, 0.1, 1e-8, 12345.678, 1.0 / 3, 0.25, 1e6, 1e-13, 1e15}

func newScale(k, max int) *scale { return scaleOf(priceTables, k, max) }

func scaleOf(tables []func(i int) float64, k, max int) *scale {
	s := &scale{price: tables[k%len(tables)], unit: volumeUnits[k%len(volumeUnits)], max: max}
	s.back = map[float64]int{}
	for i := 1; i <= max; i++ {
		s.back[s.price(i)] = i
	}
	if len(s.back) != max {
		fatal("price table is not strictly increasing")
	}
	return s
}

func (s *scale) volume(v int) float64 { return float64(v) * s.unit }

func (s *scale) rows(rows []market.OrderBookRow) [][3]int {
	out := make([][3]int, 0, len(rows))
	for _, r := range rows {
		p, ok := s.back[r.Price]
		if !ok {
			p = off
		}
		v := grid(r.Volume, s.unit, 0)
		if v != off && s.volume(v) != r.Volume {
			v = off
		}
		if v == off {
			v = grid(r.Volume, s.unit, 1e-12*math.Abs(r.Volume))
		}
		a := grid(r.AccumVolume, s.unit, 1e-9*s.unit+1e-11*math.Abs(r.AccumVolume))
		out = append(out, [3]int{p, v, a})
	}
	return out
}

func (s *scale) levels(rows []market.OrderBookRow) [][2]int {
	out := make([][2]int, 0, len(rows))
	for _, r := range s.rows(rows) {
		out = append(out, [2]int{r[0], r[1]})
	}
	return out
}

func (s *scale) obs(ob *market.OrderBook) rec {
	return rec{"asks": s.rows(ob.Asks), "bids": s.rows(ob.Bids), "depth": ob.MaxDepth}
}

// bookTimes stand for the time of a book while it is updated.
var bookTimes = []int64{1234567, 0, 1, 1619827200, 1619827201, 999999999, 86400, -60, 1900000000}

// sameTime is the time of a book if the model has numbers for it.
func sameTime(ob *market.OrderBook) int { return grid(float64(ob.Time), 1, 0) }

type bookOp struct {
	Op    string   `json:"op"`
	Asks  [][2]int `json:"asks"`
	Bids  [][2]int `json:"bids"`
	Depth int      `json:"depth"`
	Side  string   `json:"side"`
	P     int      `json:"p"`
	V     int      `json:"v"`
}

func (s *scale) input(levels [][2]int) []market.OrderBookRow {
	rows := make([]market.OrderBookRow, 0, len(levels))
	for _, l := range levels {
		rows = append(rows, market.OrderBookRow{Price: s.price(l[0]), Volume: s.volume(l[1])})
	}
	return rows
}

func nonNil(l [][2]int) [][2]int {
	if l == nil {
		return [][2]int{}
	}
	return l
}

// runBook executes one history of a book. Queries are added after every step for C06.
func runBook(e *env, s *scale, ops []bookOp, layout int) {
	var ob, ob2 market.OrderBook
	var asks, bids []market.OrderBookRow
	r := e.rng()
	stamp := bookTimes[r.Intn(len(bookTimes))]
	for k, op := range ops {
		op := op
		switch op.Op {
		case "new":
			asks, bids = s.input(op.Asks), s.input(op.Bids)
			if r.Intn(2) == 0 {
				if len(asks) == 0 {
					asks = nil
				}
				if len(bids) == 0 {
					bids = nil
				}
			}
			switch layout % 4 {
			case 1: // one array holds both sides
				all := append(append([]market.OrderBookRow{}, asks...), bids...)
				asks, bids = all[:len(asks)], all[len(asks):]
			case 2: // spare capacity behind the rows
				asks = append(make([]market.OrderBookRow, 0, len(asks)+8), asks...)
				bids = append(make([]market.OrderBookRow, 0, len(bids)+8), bids...)
			case 3: // stale accumulated volumes in the input, exact capacity
				asks, bids = asks[:len(asks):len(asks)], bids[:len(bids):len(bids)]
				for i := range asks {
					asks[i].AccumVolume = float64(7-r.Intn(3)*r.Intn(9)) * s.unit
				}
				for i := range bids {
					bids[i].AccumVolume = float64(7-r.Intn(3)*r.Intn(9)) * s.unit
				}
			}
			if e.prop == "C54" { // on a machine anywhere
				time.Local = time.FixedZone("there", 1800*(layout%53-24))
			}
			earliest := time.Now().Unix()
			if !e.call("new", func() {
				ob = market.NewOrderBook(asks, bids, op.Depth)
				if e.prop == "C05" {
					ob2 = market.NewOrderBook(asks, bids, op.Depth+1)
				}
			}) {
				return
			}
			r := rec{"op": "new", "asks": nonNil(op.Asks), "bids": nonNil(op.Bids), "depth": op.Depth, "obs": s.obs(&ob)}
			if e.prop == "C05" {
				r["obs2"], r["inAsks"], r["inBids"] = s.obs(&ob2), s.levels(asks), s.levels(bids)
			}
			if e.prop == "C54" {
				r["early"], r["late"] = grid(float64(ob.Time-earliest), 1, 0), grid(float64(time.Now().Unix()-ob.Time), 1, 0)
			}
			ob.Time = stamp
			r["time"] = stamp
			e.emit(r)
		case "upd":
			var err error
			var twins []market.OrderBook
			if e.prop == "C44" {
				twins = twinsOf(e, &ob)
				if twins == nil {
					return
				}
			}
			if !e.call("upd", func() {
				err = ob.ApplyUpdate(market.OrderBookUpdate{Price: s.price(op.P), Volume: s.volume(op.V), Side: op.Side})
			}) {
				return
			}
			r := rec{"op": "upd", "side": op.Side, "p": op.P, "v": op.V, "err": code(err), "time": sameTime(&ob), "obs": s.obs(&ob)}
			if e.prop == "C05" {
				r["obs2"], r["inAsks"], r["inBids"] = s.obs(&ob2), s.levels(asks), s.levels(bids)
			}
			e.emit(r)
			if twins != nil && !runTwins(e, s, &ob, twins, op) {
				return
			}
		}
		if e.prop == "C40" && !runLadder(e, s, &ob) {
			return
		}
		if e.prop == "C48" && (k == len(ops)-1 || k%7 == layout%7) && !runBatch(e, s, &ob, r) {
			return
		}
		if e.prop == "C06" {
			for p := -1; p <= s.max; p++ {
				if s.max > 12 && p > 0 && (p*7+len(ops))%3 != 0 && !isLevel(&ob, s.price(p)) {
					continue
				}
				price := 0.0
				if p > 0 {
					price = s.price(p)
				} else {
					price = float64(p) * 1.5
				}
				var val float64
				var err error
				if !e.call("depth", func() { val, err = ob.GetDepth(price) }) {
					return
				}
				e.emit(rec{"op": "depth", "p": p, "err": code(err), "val": grid(val, s.unit, 1e-9*s.unit+1e-11*math.Abs(val)), "obs": s.obs(&ob)})
			}
		}
	}
}

func isLevel(ob *market.OrderBook, p float64) bool {
	for _, r := range ob.Asks {
		if r.Price == p {
			return true
		}
	}
	for _, r := range ob.Bids {
		if r.Price == p {
			return true
		}
	}
	return false
}

// unknownSides are never valid sides of an update.
var unknownSides = []string{"", "asks", "bids", "ASK", "Bid", "buy", "sell", " ask", "bid ", "askbid", "bid\n", "a", "b", "ásk", "0", "%s", strings.Repeat("ask", 50), "ask\x00", "offer"}

func driveBook(e *env) {
	e.behaviours(func(id int, raw []byte) {
		var ops []bookOp
		decode(raw, &ops)
		if name := map[string]string{"C46": "mirror", "C56": "repriced"}[e.prop]; name != "" {
			runMirror(e, newScale(id+int(e.seed), 8), newScale(id/2+3*int(e.seed)+1, 8), ops, name)
			return
		}
		tables := signedTables
		if e.prop == "C06" {
			tables = priceTables
		}
		runBook(e, scaleOf(tables, id+int(e.seed), 8), ops, id/3)
	})
	e.randoms(func(id int, r *rand.Rand) {
		max := []int{6, 12, 24, 40}[r.Intn(4)]
		steps := 20 + r.Intn(100)
		if r.Intn(25) == 0 { // a book of realistic size
			max, steps = 100+r.Intn(200), 20+r.Intn(30)
		}
		if r.Intn(50) == 0 { // a long history
			max, steps = 4+r.Intn(10), 300+r.Intn(500)
		}
		tables := signedTables
		if e.prop == "C06" || e.prop == "C46" || e.prop == "C56" {
			tables = priceTables
		}
		switch e.prop {
		case "C06":
			steps = 5 + r.Intn(25)
		case "C40", "C44", "C48":
			steps = 5 + r.Intn(50)
		case "C46", "C56":
			steps = 5 + r.Intn(60)
		}
		k, j := r.Intn(990), r.Intn(990)
		if large := r.Intn(600); id < randomBase+2 || large < 1 || large < 4 && e.prop != "C05" { // a large book
			max, steps = 600+r.Intn(1000), 14+r.Intn(8)
			if e.prop == "C06" || e.prop == "C46" || e.prop == "C48" || e.prop == "C56" {
				max, steps = 300+r.Intn(300), 6+r.Intn(6)
			}
			// the prices of the exponential tables would run out
			k, j = k/len(tables)*len(tables)+len(tables)-[]int{1, 3, 4, 5, 6}[r.Intn(5)], j/len(tables)*len(tables)
		}
		s := scaleOf(tables, k, max)
		if name := map[string]string{"C46": "mirror", "C56": "repriced"}[e.prop]; name != "" {
			runMirror(e, s, newScale(j, max), randomHistory(e, r, max, steps), name)
			return
		}
		runBook(e, s, randomHistory(e, r, max, steps), r.Intn(4))
	})
}

func randomHistory(e *env, r *rand.Rand, max, steps int) []bookOp {
	depth := []int{0, 1, 2, 3, 4, 5, 5, 6, 8, 10, 12, 20, 50}[r.Intn(13)]
	if max >= 100 {
		depth = []int{25, 100, 200, 1000, 1 << 30}[r.Intn(5)]
	}
	volume := func() int {
		if most := r.Intn(12); most == 0 {
			return 1 + r.Intn(5000000) // next to small ones
		}
		return 1 + r.Intn(9)
	}
	op := bookOp{Op: "new", Depth: depth}
	mid := 1 + r.Intn(max)
	if max >= 300 && (r.Intn(3) > 0 || e.caseID < randomBase+2) {
		op.Depth = 1 << 30
		mid = max/12 + (e.caseID%2)*(max-max/6)
	}
	if e.prop == "C05" {
		// any rows at all
		na, nb := r.Intn(max), r.Intn(max)
		for i := 0; i < na; i++ {
			op.Asks = append(op.Asks, [2]int{1 + r.Intn(max), r.Intn(6)})
		}
		for i := 0; i < nb; i++ {
			op.Bids = append(op.Bids, [2]int{1 + r.Intn(max), r.Intn(6)})
		}
		steps = r.Intn(12)
	} else {
		for _, p := range r.Perm(max) {
			p++
			if r.Intn(3) == 0 {
				continue
			}
			if p > mid {
				op.Asks = append(op.Asks, [2]int{p, volume()})
			} else if p < mid {
				op.Bids = append(op.Bids, [2]int{p, volume()})
			}
		}
		empty := r.Intn(6)
		if max >= 300 {
			empty = 5
		}
		switch empty {
		case 0:
			op.Asks, op.Bids = nil, nil
		case 1:
			op.Asks = nil
		case 2:
			op.Bids = nil
		case 3:
			if e.prop == "C01" || e.prop == "C03" || e.prop == "C04" || e.prop == "C44" || e.prop == "C56" { // sides that cross
				op.Asks = crossed(r, op.Asks, max, volume)
				op.Bids = crossed(r, op.Bids, max, volume)
			}
		}
	}
	ops := []bookOp{op}
	deletions := []int{1, 3, 5, 8}[r.Intn(4)]
	if max >= 300 {
		deletions = 2
	}
	drift := r.Intn(3)
	latest := map[[2]interface{}]int{}
	for i := 0; i < steps; i++ {
		u := bookOp{Op: "upd", Side: "ask", P: 1 + r.Intn(max), V: volume()}
		if r.Intn(2) == 0 {
			u.Side = "bid"
		}
		// Most updates stay on their side of a slowly moving price; some cross it.
		if drift > 0 && r.Intn(12) != 0 {
			if u.Side == "ask" && u.P <= mid {
				u.P = mid + 1 + r.Intn(max-mid+1)
			} else if u.Side == "bid" && u.P >= mid {
				u.P = 1 + r.Intn(mid)
			}
			if u.P > max {
				u.P = max
			}
		}
		if r.Intn(8) == 0 {
			mid += r.Intn(3) - 1
			if mid < 1 {
				mid = 1
			} else if mid > max {
				mid = max
			}
		}
		if r.Intn(10) < deletions {
			u.V = 0
		}
		if max >= 300 && i < steps-2 && r.Intn(4) != 0 { // mostly what the large side has
			u.Side, u.P = "ask", 1+r.Intn(max)
			if rows := op.Asks; len(op.Bids) > len(rows) {
				u.Side, u.P = "bid", op.Bids[r.Intn(len(op.Bids))][0]
			} else if len(rows) > 0 {
				u.P = rows[r.Intn(len(rows))][0]
			}
		}
		// A level may also get nearly the volume it has.
		at := [2]interface{}{u.Side, u.P}
		if v := latest[at]; v > 1 && u.V > 0 && r.Intn(6) == 0 {
			u.V = v - 1 + r.Intn(3)
		}
		latest[at] = u.V
		if u.V > 1000000 && i < steps-1 && r.Intn(2) == 0 {
			ops = append(ops, u)
			u.V += []int{-1, 1, 2}[r.Intn(3)]
			latest[at] = u.V
			i++
		}
		if r.Intn(40) == 0 {
			u.Side = unknownSides[r.Intn(len(unknownSides))]
		}
		ops = append(ops, u)
	}
	return ops
}

// crossed adds levels at other prices anywhere.
func crossed(r *rand.Rand, rows [][2]int, max int, volume func() int) [][2]int {
	used := map[int]bool{}
	for _, l := range rows {
		used[l[0]] = true
	}
	for k := 0; k < max/2; k++ {
		if p := 1 + r.Intn(max); !used[p] {
			used[p] = true
			rows = append(rows, [2]int{p, volume()})
		}
	}
	return rows
}

// ---------------------------------------------------------------- overlap

type bookObs struct {
	Asks  [][3]int `json:"asks"`
	Bids  [][3]int `json:"bids"`
	Depth int      `json:"depth"`
}

type overlapOp struct {
	A bookObs `json:"a"`
	B bookObs `json:"b"`
}

// linear prices, because the overlap multiplies them
var overlapScales = [][2]float64{{1, 1}, {0.25, 0.5}, {0.1, 0.1}, {1000.5, 1e-8}, {1e-6, 3.7}, {1e4, 1e3}, {1e10, 0.001}, {3e-9, 2e7}, {0.37, 1.0 / 3}, {100, 1e9}, {1.0 / 7, 0.25}}

func driveOverlap(e *env) {
	e.behaviours(func(id int, raw []byte) {
		var ops []overlapOp
		decode(raw, &ops)
		runOverlap(e, overlapScales[(id+int(e.seed))%len(overlapScales)], ops[0].A, ops[0].B)
	})
	e.randoms(func(id int, r *rand.Rand) {
		max, most := []int{4, 8, 16, 40}[r.Intn(4)], 9
		if r.Intn(40) == 0 {
			max = 100 + r.Intn(200)
		}
		if r.Intn(8) == 0 {
			most = 1000
		}
		shift := 0
		switch r.Intn(10) {
		case 0: // prices around zero
			shift = -r.Intn(max + 3)
		case 1: // prices close to each other
			if max <= 40 && most == 9 {
				shift = r.Intn(20000)
			}
		}
		a := randomBook(r, max, most, shift)
		b := randomBook(r, max, most, shift)
		runOverlap(e, overlapScales[r.Intn(len(overlapScales))], a, b)
	})
}

func randomBook(r *rand.Rand, max, most, shift int) bookObs {
	mid := 1 + r.Intn(max)
	density := 1 + r.Intn(4)
	b := bookObs{Asks: [][3]int{}, Bids: [][3]int{}, Depth: max}
	if r.Intn(4) == 0 {
		b.Depth = []int{0, 1, 2, 3, 1000, 1 << 30}[r.Intn(6)]
	}
	for p := mid + 1; p <= max; p++ {
		if r.Intn(4) < density {
			b.Asks = append(b.Asks, [3]int{p + shift, 1 + r.Intn(most), 0})
		}
	}
	for p := mid; p >= 1; p-- {
		if p == mid && r.Intn(2) == 0 {
			continue
		}
		if r.Intn(4) < density {
			b.Bids = append(b.Bids, [3]int{p + shift, 1 + r.Intn(most), 0})
		}
	}
	for _, rows := range [][][3]int{b.Asks, b.Bids} {
		sum := 0
		for i := range rows {
			sum += rows[i][1]
			rows[i][2] = sum
		}
	}
	return b
}

func runOverlap(e *env, sc [2]float64, oa, ob bookObs) {
	pu, vu := sc[0], sc[1]
	build := func(o bookObs) market.OrderBook {
		conv := func(rows [][3]int) []market.OrderBookRow {
			var out []market.OrderBookRow
			for _, r := range rows {
				out = append(out, market.OrderBookRow{Price: float64(r[0]) * pu, Volume: float64(r[1]) * vu})
			}
			return out
		}
		return market.NewOrderBook(conv(o.Asks), conv(o.Bids), o.Depth)
	}
	s := &scale{price: func(i int) float64 { return float64(i) * pu }, unit: vu, back: map[float64]int{}, max: 300}
	for i := -300; i <= 300; i++ {
		s.back[s.price(i)] = i
	}
	for _, rows := range [][][3]int{oa.Asks, oa.Bids, ob.Asks, ob.Bids} {
		for _, l := range rows {
			s.back[s.price(l[0])] = l[0]
		}
	}
	a, b := build(oa), build(ob)
	a.Time, b.Time = bookTimes[e.caseID%len(bookTimes)], bookTimes[e.caseID/7%len(bookTimes)]
	before := [2]rec{s.obs(&a), s.obs(&b)}
	var v1, v2 float64
	var e1, e2 error
	if !e.call("overlap", func() {
		v1, e1 = market.CalculateOverlap(a, b)
		v2, e2 = market.CalculateOverlap(b, a)
	}) {
		return
	}
	tol := pu * vu * 1e-6
	e.emit(rec{"op": "overlap", "a": before[0], "b": before[1], "err": code(e1), "err2": code(e2),
		"val": grid(v1, pu*vu, tol), "val2": grid(v2, pu*vu, tol), "aAfter": s.obs(&a), "bAfter": s.obs(&b)})
}
