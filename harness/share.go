package main

import (
	"bytes"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sync"

	"github.com/vanclief/finmod/indicators"
	"github.com/vanclief/finmod/market"
	"github.com/vanclief/finmod/strategy"
	"github.com/vanclief/finmod/utils"
)

func init() { drivers["share"] = driveShare }

type progCall struct {
	Op    string `json:"op"`
	Arg   int    `json:"arg"`
	Slots []int  `json:"slots"`
}

// A program holds values by kind.
type held struct {
	kind string
	v    interface{}
}

type program struct {
	e     *env
	fps   interned
	slots []held
	files int
	step  int // minutes between the candles
	mu    sync.Mutex
}

// print identifies a value; identifiers and clocks given by the library are left out.
func (p *program) print(h held) int { return p.fps.id(content(h.v)) }

func content(x interface{}) interface{} {
	switch v := x.(type) {
	case *market.OrderBook:
		return []interface{}{v.Asks, v.Bids, v.MaxDepth}
	case *market.Position:
		c := *v
		c.ID = ""
		return c
	}
	return x
}

func (p *program) all() []int {
	out := []int{}
	for _, h := range p.slots {
		out = append(out, p.print(h))
	}
	return out
}

var shareSymbols = []string{"BTC", "ETH", "XRP", "DOGE", "NOPE", "USDT", "ADA"}

// result makes a call that changes nothing.
func (p *program) result(op string, arg int, in []interface{}) (interface{}, error) {
	candles := func() []market.Candle { return in[0].([]market.Candle) }
	switch op {
	case "sma", "ema", "smma":
		return averageOf(op, candles(), arg)
	case "rsi":
		return indicators.RSI(candles(), arg)
	case "ewv":
		return indicators.ExponentialWeightedVolatility(candles(), float64(arg)/20), nil
	case "fractals":
		return indicators.WilliamFractals(candles()), nil
	case "minimum":
		return market.GetMinInterval(candles()), nil
	case "resample":
		if arg%2 == 0 {
			arg = arg / 2 * p.step
		}
		return market.ModifyInterval(candles(), arg)
	case "file":
		p.mu.Lock()
		p.files++
		name := filepath.Join(p.e.scratch, fmt.Sprintf("share%d.txt", p.files%40))
		p.mu.Unlock()
		cs := candles()
		if err := market.SaveCandlesToFile(&cs, name); err != nil {
			return nil, err
		}
		return market.LoadCandlesFromFile(name)
	case "book":
		b := market.NewOrderBook(in[0].([]market.OrderBookRow), in[1].([]market.OrderBookRow), arg)
		return &b, nil
	case "depth":
		return in[0].(*market.OrderBook).GetDepth(float64(arg))
	case "overlap":
		return market.CalculateOverlap(*in[0].(*market.OrderBook), *in[1].(*market.OrderBook))
	case "open":
		return market.NewPosition(in[0].(*market.Trade)), nil
	case "unrealized":
		return in[0].(*market.Position).UnrealizedProfit(float64(arg)), nil
	case "trade":
		return market.NewTrade(fmt.Sprintf("t%d", arg), mTime(arg), market.ActionType([]string{"buy", "sell"}[arg%2]), market.MarketOrder, mPairs[1], float64(1+arg%7), float64(1+arg%5), float64(arg)), nil
	case "request":
		return market.NewOrderRequest(mPairs[1+arg%2], market.BuyAction, mOrderTypes[arg%2], float64(arg%3), float64(1+arg), float64(1-min(arg%3, 1)))
	case "fields":
		return in[0].(*market.OrderRequest).CalculateFields(float64(arg))
	case "asset":
		return market.NewCryptoAsset(shareSymbols[arg%len(shareSymbols)])
	case "forex":
		return market.NewForexAsset([]string{"USD", "EUR", "MXN", "NOPE", "usd"}[arg%5])
	case "stock":
		return market.NewStockAsset([]string{"AAPL", "TSLA", "NOPE"}[arg%3])
	case "symbol":
		pair := mPairs[1+arg%3]
		if arg%5 == 0 {
			pair.Quote = market.Asset{}
		}
		return pair.Symbol([]string{"", "-", "/", "_"}[arg%4]), nil
	case "zone":
		tick := strategy.Tick{Candle: &market.Candle{Time: int64(1619827200 + arg*86400*20)}}
		t, err := tick.GetLocationTime([]string{"UTC", "America/New_York", "Nowhere/Else", "Asia/Tokyo"}[arg%4])
		return t.Format("2006-01-02 15:04:05 MST -0700"), err
	case "text":
		return in[0].(*market.OrderBook).String(), nil
	case "ticket":
		return in[0].(*market.Trade).String(), nil
	case "date":
		return utils.RawDateToRFC3339(fmt.Sprintf("2021-%02d-%02d", 1+arg%12, 1+arg%31))
	}
	fatal("unknown call", op)
	return nil, nil
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// change makes a call that changes its first argument.
func (p *program) change(op string, arg int, in []interface{}) error {
	switch op {
	case "update":
		return in[0].(*market.OrderBook).ApplyUpdate(market.OrderBookUpdate{Price: float64(1 + arg%25), Volume: float64(arg % 4), Side: []string{"ask", "bid"}[arg/25%2]})
	case "modify":
		return in[0].(*market.Position).Modify(in[1].(*market.Trade))
	}
	fatal("unknown change", op)
	return nil
}

// overwrite scribbles over everything a value consists of, up to the capacity of its slices.
func overwrite(h held, n int) interface{} {
	x := float64(-1000 - n)
	rows := func(s []market.OrderBookRow) {
		for k := range s {
			s[k] = market.OrderBookRow{Price: x, Volume: x, AccumVolume: x}
		}
	}
	switch v := h.v.(type) {
	case []market.Candle:
		for k := range v[:cap(v)] {
			v[:cap(v)][k] = market.Candle{Time: int64(x), Open: x, High: x, Low: x, Close: x, Volume: x}
		}
	case []float64:
		for k := range v[:cap(v)] {
			v[:cap(v)][k] = x
		}
	case []float32:
		for k := range v[:cap(v)] {
			v[:cap(v)][k] = float32(x)
		}
	case []indicators.WilliamFractal:
		for k := range v[:cap(v)] {
			v[:cap(v)][k] = indicators.WilliamFractal{Price: x}
		}
	case []market.OrderBookRow:
		rows(v[:cap(v)])
	case *market.OrderBook:
		rows(v.Asks[:cap(v.Asks)])
		rows(v.Bids[:cap(v.Bids)])
	case *market.Trade:
		*v = market.Trade{ID: "overwritten", Price: x, Quantity: -x, Pair: mPairs[2]}
	case *market.Position:
		if v != nil {
			for k := range v.Trades[:cap(v.Trades)] {
				v.Trades[:cap(v.Trades)][k] = "overwritten"
			}
			v.Quantity, v.OpenPrice = -x, x
		}
	case *market.OrderRequest:
		if v != nil {
			v.Quantity, v.Total, v.Price = x, x, x
		}
	default:
		return x // a plain value
	}
	return h.v
}

var shareOut = map[string]string{"resample": "candles", "file": "candles", "book": "book", "open": "position", "trade": "trade", "request": "request", "fields": "request"}

// usable tells whether a call makes sense: one candle is returned as it is, so that it stays shared.
func (p *program) usable(op string, in []interface{}) bool {
	for _, v := range in {
		switch x := v.(type) {
		case []market.Candle:
			if op == "resample" && len(x) < 2 {
				return false
			}
		case *market.OrderRequest:
			if x == nil {
				return false
			}
		case *market.Position:
			if x == nil {
				return false
			}
		case nil:
			return false
		}
	}
	return true
}

func (p *program) args(slots []int) []interface{} {
	out := []interface{}{}
	for _, k := range slots {
		out = append(out, p.slots[k].v)
	}
	return out
}

func names1(slots []int) []int {
	out := []int{}
	for _, k := range slots {
		out = append(out, k+1)
	}
	return out
}

// run executes the program; slots of calls that make no sense are -1.
func (p *program) run(prog []progCall) {
	e := p.e
	e.emit(rec{"op": "start", "held": p.all()})
	at := []int{}
	for k := range p.slots {
		at = append(at, k)
	}
	var pure []progCall
	for n, c := range prog {
		slots := []int{}
		ok := true
		for _, k := range c.Slots {
			if k > len(at) || at[k-1] < 0 {
				ok = false
				break
			}
			slots = append(slots, at[k-1])
		}
		switch c.Op {
		case "overwrite":
			if !ok {
				continue
			}
			h := &p.slots[slots[0]]
			h.v = overwrite(*h, n)
			e.emit(rec{"op": "overwrite", "slots": names1(slots), "held": p.all()})
		case "update", "modify":
			if !ok || !p.usable(c.Op, p.args(slots)) {
				continue
			}
			var err error
			if !e.call(c.Op, func() { err = p.change(c.Op, c.Arg, p.args(slots)) }) {
				return
			}
			e.emit(rec{"op": c.Op, "arg": c.Arg, "slots": names1(slots), "err": code(err), "held": p.all()})
		default:
			if !ok || !p.usable(c.Op, p.args(slots)) {
				at = append(at, -1)
				continue
			}
			var err error
			var v interface{}
			if !e.call(c.Op, func() { v, err = p.result(c.Op, c.Arg, p.args(slots)) }) {
				return
			}
			kind := shareOut[c.Op]
			if kind == "" {
				kind = "values"
			}
			at = append(at, len(p.slots))
			p.slots = append(p.slots, held{kind, v})
			e.emit(rec{"op": c.Op, "arg": c.Arg, "slots": names1(slots), "err": code(err), "held": p.all()})
			pure = append(pure, progCall{Op: c.Op, Arg: c.Arg, Slots: slots})
		}
	}
	p.parallel(pure)
	if e.caseID%5 == 0 {
		p.elsewhere(pure)
	}
}

// soloCall is a call with its arguments, to be made by another process.
type soloCall struct {
	Op       string
	Arg      int
	Step     int
	Candles  []market.Candle
	Rows     [][]market.OrderBookRow
	Books    []market.OrderBook
	Trade    *market.Trade
	Position *market.Position
	Request  *market.OrderRequest
}

func (c *soloCall) args() []interface{} {
	var in []interface{}
	if c.Candles != nil {
		in = append(in, c.Candles)
	}
	for _, x := range c.Rows {
		in = append(in, x)
	}
	for k := range c.Books {
		in = append(in, &c.Books[k])
	}
	if c.Trade != nil {
		in = append(in, c.Trade)
	}
	if c.Position != nil {
		in = append(in, c.Position)
	}
	if c.Request != nil {
		in = append(in, c.Request)
	}
	return in
}

// answers makes the calls, the last one first if asked so, and describes the outcomes.
func answers(e *env, wire []byte, backwards bool) []string {
	var calls []soloCall
	if err := gob.NewDecoder(bytes.NewReader(wire)).Decode(&calls); err != nil {
		fatal(err)
	}
	out := make([]string, len(calls))
	for n := range calls {
		k := n
		if backwards {
			k = len(calls) - 1 - n
		}
		c := &calls[k]
		p := &program{e: e, step: c.Step}
		func() {
			defer func() {
				if x := recover(); x != nil {
					out[k] = "panic"
				}
			}()
			v, err := p.result(c.Op, c.Arg, c.args())
			out[k] = dump([]interface{}{content(v), code(err)})
		}()
	}
	return out
}

// solo makes the calls read from the standard input in a process of their own.
func solo(e *env) {
	wire, err := io.ReadAll(os.Stdin)
	if err != nil {
		fatal(err)
	}
	json.NewEncoder(os.Stdout).Encode(answers(e, wire, true))
}

// elsewhere repeats the calls here, after all that happened, and in a fresh process.
func (p *program) elsewhere(calls []progCall) {
	var send []soloCall
	for _, c := range calls {
		in := p.args(c.Slots)
		if !p.usable(c.Op, in) {
			continue
		}
		s := soloCall{Op: c.Op, Arg: c.Arg, Step: p.step}
		for _, x := range in {
			switch v := x.(type) {
			case []market.Candle:
				s.Candles = v
			case []market.OrderBookRow:
				s.Rows = append(s.Rows, v)
			case *market.OrderBook:
				s.Books = append(s.Books, *v)
			case *market.Trade:
				s.Trade = v
			case *market.Position:
				s.Position = v
			case *market.OrderRequest:
				s.Request = v
			}
		}
		if len(s.args()) == len(in) && (s.Candles == nil || len(s.Candles) > 0) {
			send = append(send, s)
		}
	}
	if len(send) == 0 {
		return
	}
	var wire bytes.Buffer
	if err := gob.NewEncoder(&wire).Encode(send); err != nil {
		fatal(err)
	}
	var here, there []string
	if !p.e.call("elsewhere", func() { here = answers(p.e, wire.Bytes(), false) }) {
		return
	}
	dir, err := os.MkdirTemp(p.e.scratch, "solo")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(dir)
	cmd := exec.Command(os.Args[0], "-solo", "-scratch", dir)
	cmd.Stdin, cmd.Stderr = &wire, os.Stderr
	out, err := cmd.Output()
	if err != nil {
		fatal("calls in a process of their own:", err)
	}
	if err := json.Unmarshal(out, &there); err != nil {
		fatal(err)
	}
	ids := func(s []string) []int {
		out := []int{}
		for _, x := range s {
			out = append(out, p.fps.id(x))
		}
		return out
	}
	p.e.emit(rec{"op": "elsewhere", "seq": ids(here), "par": [][]int{ids(there)}, "held": p.all()})
}

// parallel repeats the calls one after the other, and then by several goroutines at once.
func (p *program) parallel(calls []progCall) {
	if len(calls) == 0 {
		return
	}
	type answer struct {
		V   interface{}
		Err string
	}
	ask := func(out []answer, from int) {
		for n := range calls {
			c := calls[(n+from)%len(calls)]
			in := p.args(c.Slots)
			if !p.usable(c.Op, in) {
				continue
			}
			v, err := p.result(c.Op, c.Arg, in)
			out[(n+from)%len(calls)] = answer{v, code(err)}
		}
	}
	const workers = 4
	answers := make([][]answer, workers+1)
	for k := range answers {
		answers[k] = make([]answer, len(calls))
	}
	if !p.e.call("parallel", func() {
		ask(answers[0], 0)
		var wg sync.WaitGroup
		var failed [workers]interface{}
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				defer func() { failed[w] = recover() }()
				ask(answers[w+1], w*3)
			}(w)
		}
		wg.Wait()
		for _, f := range failed {
			if f != nil {
				panic(f)
			}
		}
	}) {
		return
	}
	prints := [][]int{}
	for _, a := range answers {
		row := []int{}
		for _, x := range a {
			row = append(row, p.fps.id([]interface{}{p.print(held{"", x.V}), x.Err}))
		}
		prints = append(prints, row)
	}
	p.e.emit(rec{"op": "parallel", "seq": prints[0], "par": prints[1:], "held": p.all()})
}

func newProgram(e *env, r *rand.Rand) *program {
	p := &program{e: e, fps: interned{}, step: []int{1, 1, 1, 5, 15, 30, 60, 60, 240, 1440}[r.Intn(10)]}
	closes := randomCloses(r, 15+r.Intn(30), 1+r.Intn(8), 60)
	cs := barCandles(barsOf(closes, r), 1)
	for k := range cs {
		cs[k].Time *= int64(p.step)
	}
	if r.Intn(2) == 0 {
		cs = spare(cs, 6, r)
	}
	side := func(from, to, n int) []market.OrderBookRow {
		out := []market.OrderBookRow{}
		for _, k := range r.Perm(to - from)[:n] {
			out = append(out, market.OrderBookRow{Price: float64(from + k), Volume: float64(1 + r.Intn(5))})
		}
		return out
	}
	p.slots = []held{{"candles", cs}, {"rows", side(13, 25, 1+r.Intn(6))}, {"rows", side(1, 13, 1+r.Intn(6))},
		{"trade", market.NewTrade("t0", mTime(1), market.BuyAction, market.MarketOrder, mPairs[1], 5, 2, 10)}}
	return p
}

var shareIns = map[string][]string{
	"sma": {"candles"}, "ema": {"candles"}, "smma": {"candles"}, "rsi": {"candles"}, "ewv": {"candles"}, "fractals": {"candles"}, "minimum": {"candles"},
	"resample": {"candles"}, "file": {"candles"}, "book": {"rows", "rows"}, "depth": {"book"}, "overlap": {"book", "book"}, "update": {"book"},
	"open": {"trade"}, "modify": {"position", "trade"}, "unrealized": {"position"}, "trade": {}, "request": {}, "fields": {"request"}, "asset": {}, "date": {},
	"forex": {}, "stock": {}, "symbol": {}, "zone": {}, "text": {"book"}, "ticket": {"trade"},
}

var shareOps = []string{"sma", "ema", "smma", "rsi", "ewv", "fractals", "minimum", "resample", "resample", "file", "book", "book", "depth", "overlap", "update", "update",
	"open", "open", "modify", "modify", "unrealized", "trade", "request", "fields", "asset", "date", "overwrite", "forex", "stock", "symbol", "symbol", "zone", "text", "ticket"}

func driveShare(e *env) {
	e.behaviours(func(id int, raw []byte) {
		var prog []progCall
		decode(raw, &prog)
		r := e.rng()
		for k := range prog {
			prog[k].Arg = 1 + r.Intn(10)
		}
		newProgram(e, r).run(prog)
	})
	e.randoms(func(id int, r *rand.Rand) {
		p := newProgram(e, r)
		kinds := []string{}
		for _, h := range p.slots {
			kinds = append(kinds, h.kind)
		}
		few := r.Perm(len(shareOps))[:4+r.Intn(len(shareOps)-4)] // favour some calls
		prog := []progCall{}
		for n := 5 + r.Intn(25); n > 0; n-- {
			op := shareOps[few[r.Intn(len(few))]]
			c := progCall{Op: op, Arg: 1 + r.Intn(12), Slots: []int{}}
			if op == "update" {
				c.Arg = r.Intn(100)
			}
			if op == "overwrite" {
				c.Slots = append(c.Slots, 1+r.Intn(len(kinds)))
				prog = append(prog, c)
				continue
			}
			for _, kind := range shareIns[op] {
				var fit []int
				for k, x := range kinds {
					if x == kind {
						fit = append(fit, k+1)
					}
				}
				if len(fit) == 0 {
					break
				}
				c.Slots = append(c.Slots, fit[r.Intn(len(fit))])
			}
			if len(c.Slots) < len(shareIns[op]) {
				continue
			}
			prog = append(prog, c)
			if op != "update" && op != "modify" {
				kind := shareOut[op]
				if kind == "" {
					kind = "values"
				}
				kinds = append(kinds, kind)
			}
			if r.Intn(4) == 0 { // the same once more
				prog = append(prog, c)
				if op != "update" && op != "modify" {
					kinds = append(kinds, kinds[len(kinds)-1])
				}
			}
		}
		p.run(prog)
	})
}
