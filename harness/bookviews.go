package main

import (
	"encoding/json"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"github.com/vanclief/finmod/market"
)

// ---------------------------------------------------------------- twins

// twinsOf builds books with the rows of ob: the same rows, the rows in reverse order, and a book from storage.
func twinsOf(e *env, ob *market.OrderBook) []market.OrderBook {
	var twins []market.OrderBook
	if !e.call("twin", func() {
		back := func(rows []market.OrderBookRow) []market.OrderBookRow {
			out := make([]market.OrderBookRow, 0, len(rows))
			for k := len(rows) - 1; k >= 0; k-- {
				out = append(out, rows[k])
			}
			return out
		}
		twins = append(twins, market.NewOrderBook(ob.Asks, ob.Bids, ob.MaxDepth), market.NewOrderBook(back(ob.Asks), back(ob.Bids), ob.MaxDepth))
		b, err := json.Marshal(ob)
		if err != nil {
			panic(err)
		}
		var stored market.OrderBook
		if err := json.Unmarshal(b, &stored); err != nil {
			panic(err)
		}
		twins = append(twins, stored)
	}) {
		return nil
	}
	return twins
}

// runTwins applies the update of op to the twins of the book before it, and once more to the book after it.
func runTwins(e *env, s *scale, ob *market.OrderBook, twins []market.OrderBook, op bookOp) bool {
	update := market.OrderBookUpdate{Price: s.price(op.P), Volume: s.volume(op.V), Side: op.Side}
	after := twinsOf(e, ob)
	if after == nil {
		return false
	}
	rebuilt, moved, again := []rec{}, []rec{}, []rec{}
	errs := []string{}
	for k := range after {
		rebuilt = append(rebuilt, s.obs(&after[k]))
	}
	if !e.call("twin", func() {
		for k := range twins {
			err := twins[k].ApplyUpdate(update)
			moved = append(moved, s.obs(&twins[k]))
			errs = append(errs, code(err))
			err = after[k].ApplyUpdate(update)
			again = append(again, s.obs(&after[k]))
			errs = append(errs, code(err))
		}
	}) {
		return false
	}
	e.emit(rec{"op": "twin", "rebuilt": rebuilt, "moved": moved, "again": again, "errs": errs, "side": op.Side, "p": op.P, "v": op.V})
	return true
}

// --------------------------------------------------------------- ladder

var printedNumber = regexp.MustCompile(`-?\d+(\.\d+)?(e[-+]?\d+)?`)

// printedRows reads rows of three numbers from a text.
func printedRows(text string, pu, vu float64) [][3]int {
	out := [][3]int{}
	nums := printedNumber.FindAllString(text, -1)
	for k := 0; k < len(nums); k += 3 {
		row := [3]int{off, off, off}
		for j := 0; j < 3 && k+j < len(nums); j++ {
			if x, err := strconv.ParseFloat(nums[k+j], 64); err == nil {
				u := vu
				if j == 0 {
					u = pu
				}
				row[j] = grid(x, u, 1e-3*u)
			}
		}
		out = append(out, row)
	}
	return out
}

// shownUnits are the units of the prices and volumes that are printed.
var shownUnits = []float64{1, 1, 0.5, 0.25, 0.001, 12.5, 1000, 0.01, 1e6, 0.125, 1e-5, 1e-8, 1e-6}

// plain gives a book of the same shape with short prices and volumes.
func plain(s *scale, rows []market.OrderBookRow, pu, vu float64) []market.OrderBookRow {
	out := []market.OrderBookRow{}
	for _, r := range s.rows(rows) {
		out = append(out, market.OrderBookRow{Price: float64(r[0]) * pu, Volume: float64(r[1]) * vu, AccumVolume: float64(r[2]) * vu})
	}
	return out
}

func runLadder(e *env, s *scale, ob *market.OrderBook) bool {
	pu, vu := shownUnits[e.caseID%len(shownUnits)], shownUnits[e.caseID/3%len(shownUnits)]
	shown := market.OrderBook{Time: ob.Time, Asks: plain(s, ob.Asks, pu, vu), Bids: plain(s, ob.Bids, pu, vu), MaxDepth: ob.MaxDepth}
	name := filepath.Join(e.scratch, "stdout")
	f, err := os.Create(name)
	if err != nil {
		fatal(err)
	}
	stdout := os.Stdout
	os.Stdout = f
	var text string
	ok := e.call("ladder", func() {
		shown.Print()
		text = shown.String()
	})
	os.Stdout = stdout
	f.Close()
	if !ok {
		return false
	}
	b, err := os.ReadFile(name)
	if err != nil {
		fatal(err)
	}
	// the rows before and after the line that separates the sides
	parts := [][][3]int{{}}
	for k, line := range strings.Split(strings.TrimRight(string(b), "\n"), "\n") {
		switch rows := printedRows(line, pu, vu); {
		case len(rows) > 0:
			parts[len(parts)-1] = append(parts[len(parts)-1], rows...)
		case k > 0:
			parts = append(parts, [][3]int{})
		}
	}
	cut := strings.Index(text, "Bids:")
	from := strings.Index(text, "Asks:")
	asks, bids, at := [][3]int{{off}}, [][3]int{{off}}, off
	if from >= 0 && cut > from {
		asks, bids = printedRows(text[from:cut], pu, vu), printedRows(text[cut:], pu, vu)
		if nums := printedNumber.FindAllString(text[:from], -1); len(nums) == 1 {
			if x, err := strconv.ParseInt(nums[0], 10, 32); err == nil {
				at = int(x)
			}
		}
	}
	e.emit(rec{"op": "ladder", "parts": parts, "asks": asks, "bids": bids, "time": at})
	return true
}

// --------------------------------------------------------------- mirror

// runMirror executes a history and its mirror image (sides swapped, prices turned around),
// or, for "repriced", the same history, with the prices and volumes of two scales.
func runMirror(e *env, s, t *scale, ops []bookOp, name string) {
	image := func(p int) int { return t.max + 1 - p }
	if name == "repriced" {
		image = func(p int) int { return p }
	}
	var a, b market.OrderBook
	turn := func(rows [][2]int) [][2]int {
		out := [][2]int{}
		for _, r := range rows {
			out = append(out, [2]int{image(r[0]), r[1]})
		}
		return out
	}
	for _, op := range ops {
		op := op
		var e1, e2 error
		if !e.call(name, func() {
			switch op.Op {
			case "new":
				a = market.NewOrderBook(s.input(op.Asks), s.input(op.Bids), op.Depth)
				if name == "repriced" {
					b = market.NewOrderBook(t.input(op.Asks), t.input(op.Bids), op.Depth)
				} else {
					b = market.NewOrderBook(t.input(turn(op.Bids)), t.input(turn(op.Asks)), op.Depth)
				}
			case "upd":
				side := map[string]string{"ask": "bid", "bid": "ask"}[op.Side]
				if side == "" || name == "repriced" {
					side = op.Side
				}
				e1 = a.ApplyUpdate(market.OrderBookUpdate{Price: s.price(op.P), Volume: s.volume(op.V), Side: op.Side})
				e2 = b.ApplyUpdate(market.OrderBookUpdate{Price: t.price(image(op.P)), Volume: t.volume(op.V), Side: side})
			}
		}) {
			return
		}
		depths := [][2][2]interface{}{}
		for p := 1; p <= s.max; p++ {
			if s.max > 12 && p%5 != len(ops)%5 && !isLevel(&a, s.price(p)) {
				continue
			}
			var va, vb float64
			var ea, eb error
			if !e.call(name, func() {
				va, ea = a.GetDepth(s.price(p))
				vb, eb = b.GetDepth(t.price(image(p)))
			}) {
				return
			}
			depths = append(depths, [2][2]interface{}{
				{code(ea), grid(va, s.unit, 1e-9*s.unit+1e-11*math.Abs(va))},
				{code(eb), grid(vb, t.unit, 1e-9*t.unit+1e-11*math.Abs(vb))}})
		}
		e.emit(rec{"op": name, "max": s.max, "a": s.obs(&a), "b": t.obs(&b), "errA": code(e1), "errB": code(e2), "depths": depths})
	}
}

// --------------------------------------------------------------- batches

func cloneBook(ob *market.OrderBook) market.OrderBook {
	return market.OrderBook{Time: ob.Time, Asks: append([]market.OrderBookRow{}, ob.Asks...), Bids: append([]market.OrderBookRow{}, ob.Bids...), MaxDepth: ob.MaxDepth}
}

type mUpdate struct {
	Side string `json:"side"`
	P    int    `json:"p"`
	V    int    `json:"v"`
}

// randomBatch draws updates, mostly such that their order does not matter.
func randomBatch(s *scale, ob *market.OrderBook, r *rand.Rand) []mUpdate {
	mid := 1 + r.Intn(s.max)
	if len(ob.Asks) > 0 && r.Intn(4) != 0 {
		mid = s.back[ob.Asks[0].Price] - 1
	} else if len(ob.Bids) > 0 && r.Intn(4) != 0 {
		mid = s.back[ob.Bids[0].Price]
	}
	side := []string{"ask", "bid", "both"}[r.Intn(3)]
	deletes := r.Intn(3)
	var out []mUpdate
	for _, p := range r.Perm(s.max) {
		u := mUpdate{Side: side, P: p + 1, V: 1 + r.Intn(9)}
		if side == "both" {
			u.Side = "bid"
			if u.P > mid {
				u.Side = "ask"
			}
		} else if r.Intn(3) != 0 && (side == "ask") != (u.P > mid) {
			continue
		}
		if deletes == 1 && r.Intn(2) == 0 || deletes == 2 && r.Intn(8) != 0 {
			u.V = 0
		}
		out = append(out, u)
		if len(out) == 2+s.max%4 {
			break
		}
	}
	return out
}

// runBatch applies a batch of updates to copies of a book in several orders, and builds the book level by level.
func runBatch(e *env, s *scale, ob *market.OrderBook, r *rand.Rand) bool {
	batch := randomBatch(s, ob, r)
	if len(batch) < 2 {
		return true
	}
	apply := func(b *market.OrderBook, u mUpdate) error {
		return b.ApplyUpdate(market.OrderBookUpdate{Price: s.price(u.P), Volume: s.volume(u.V), Side: u.Side})
	}
	results, built, errs := []rec{}, []rec{}, []string{}
	if !e.call("batch", func() {
		for n := 0; n < 4; n++ {
			b := cloneBook(ob)
			order := r.Perm(len(batch))
			if n < 2 {
				for k := range order {
					order[k] = k
					if n == 1 {
						order[k] = len(order) - 1 - k
					}
				}
			}
			for _, k := range order {
				errs = append(errs, code(apply(&b, batch[k])))
			}
			results = append(results, s.obs(&b))
		}
		var levels []mUpdate
		for _, row := range s.rows(ob.Asks) {
			levels = append(levels, mUpdate{"ask", row[0], row[1]})
		}
		for _, row := range s.rows(ob.Bids) {
			levels = append(levels, mUpdate{"bid", row[0], row[1]})
		}
		for n := 0; n < 3; n++ {
			b := market.NewOrderBook(nil, nil, ob.MaxDepth)
			for _, k := range r.Perm(len(levels)) {
				errs = append(errs, code(apply(&b, levels[k])))
			}
			built = append(built, s.obs(&b))
		}
	}) {
		return false
	}
	e.emit(rec{"op": "batch", "ups": batch, "results": results, "built": built, "errs": errs})
	return true
}
