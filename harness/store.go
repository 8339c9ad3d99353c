package main

import (
	"encoding/json"
	"math"
	"math/rand"
	"os"
	"reflect"
	"strings"

	"github.com/vanclief/finmod/market"
	"github.com/vanclief/finmod/strategy"
	"github.com/vanclief/state/interfaces"
)

func init() {
	drivers["store"] = driveStore
	drivers["restore"] = driveRestore
	drivers["print"] = drivePrint
}

type model interface {
	GetSchema() *interfaces.Schema
	GetID() string
	Update(i interface{}) error
}

var storeKinds = []string{"order", "trade", "position", "annotation"}

func newModel(kind string) model {
	switch kind {
	case "order":
		return &market.Order{}
	case "trade":
		return &market.Trade{}
	case "position":
		return &market.Position{}
	}
	return &strategy.Annotation{}
}

type storeOp struct {
	Kind  string `json:"kind"`
	Arg   string `json:"arg"`
	Value int    `json:"value"`
}

func elem(m interface{}) reflect.Value { return reflect.ValueOf(m).Elem() }

func runStore(e *env, ops []storeOp, r *rand.Rand, start bool) {
	fps := interned{}
	models := map[string]model{}
	for _, k := range storeKinds {
		models[k] = newModel(k)
		if start {
			fill(elem(models[k]), r, 0)
		}
	}
	vals := func() map[string]int {
		out := map[string]int{}
		for k, m := range models {
			out[k] = fps.id(m)
		}
		return out
	}
	e.emit(rec{"op": "start", "vals": vals()})
	pool := map[string]model{}
	for _, op := range ops {
		op := op
		target := models[op.Kind]
		// one argument per kind and value number, used again when it comes up again
		get := func(kind string) model {
			key := kind + string(rune('0'+op.Value))
			if pool[key] == nil || r.Intn(4) == 0 {
				pool[key] = newModel(kind)
				fill(elem(pool[key]), r, 0)
			}
			return pool[key]
		}
		same := get(op.Kind)
		var arg interface{}
		argID := ""
		switch op.Arg {
		case "value":
			arg = elem(same).Interface()
		case "nil":
			arg = nil
		case "string":
			arg = same.GetID()
		case "map":
			b, _ := json.Marshal(same)
			m := map[string]interface{}{}
			json.Unmarshal(b, &m)
			arg = m
		case "pointer":
			p := reflect.New(reflect.TypeOf(same))
			p.Elem().Set(reflect.ValueOf(same))
			arg = p.Interface()
		case "slice":
			s := reflect.MakeSlice(reflect.SliceOf(reflect.TypeOf(same)), 1, 1)
			s.Index(0).Set(reflect.ValueOf(same))
			arg = s.Interface()
		default:
			m := get(op.Arg)
			arg, argID = m, m.GetID()
		}
		if argID == "" && op.Arg == op.Kind {
			argID = elem(arg).FieldByName("ID").String()
		}
		value := fps.id(arg)
		var err error
		var id string
		tables, keys := map[string]string{}, map[string]string{}
		if !e.call("update", func() {
			err = target.Update(arg)
			id = target.GetID()
			for k, m := range models {
				s := m.GetSchema()
				tables[k], keys[k] = s.Name, s.PKey
			}
		}) {
			return
		}
		e.emit(rec{"op": "update", "kind": op.Kind, "arg": op.Arg, "value": value, "valueAfter": fps.id(arg), "err": code(err), "id": id, "argId": argID,
			"vals": vals(), "tables": tables, "keys": keys})
	}
}

func driveStore(e *env) {
	e.behaviours(func(id int, raw []byte) {
		var ops []storeOp
		decode(raw, &ops)
		runStore(e, ops, e.rng(), id%2 == 1)
	})
	args := append([]string{"value", "nil", "string", "map", "pointer", "slice"}, storeKinds...)
	e.randoms(func(id int, r *rand.Rand) {
		var ops []storeOp
		for n := 1 + r.Intn(20); n > 0; n-- {
			op := storeOp{Kind: storeKinds[r.Intn(4)], Arg: args[r.Intn(len(args))], Value: 1 + r.Intn(5)}
			if r.Intn(2) == 0 {
				op.Arg = op.Kind
			}
			ops = append(ops, op)
		}
		runStore(e, ops, r, r.Intn(2) == 0)
	})
}

// ----------------------------------------------------------------- restore

type restoreCase struct {
	Subject string `json:"subject"`
	Ops     []struct {
		Sort    string `json:"sort"`
		P       int    `json:"p"`
		V       int    `json:"v"`
		Restore bool   `json:"restore"`
	} `json:"ops"`
}

var jsonTypes = []reflect.Type{
	reflect.TypeOf(market.Candle{}), reflect.TypeOf(market.OrderBook{}), reflect.TypeOf(market.OrderBookRow{}), reflect.TypeOf(market.OrderBookUpdate{}),
	reflect.TypeOf(market.Order{}), reflect.TypeOf(market.Trade{}), reflect.TypeOf(market.Position{}), reflect.TypeOf(market.PositionCloseOrder{}),
	reflect.TypeOf(market.Pair{}), reflect.TypeOf(market.Asset{}), reflect.TypeOf(market.Ticker{}), reflect.TypeOf(market.BalanceSnapshot{}),
	reflect.TypeOf(market.AssetsSnapshot{}), reflect.TypeOf(market.Balance{}), reflect.TypeOf(market.OrderRequest{}),
	reflect.TypeOf(strategy.Annotation{}), reflect.TypeOf(strategy.Actions{}), reflect.TypeOf(strategy.CreateOrderAction{}), reflect.TypeOf(strategy.UpdateOrderAction{}),
	reflect.TypeOf(strategy.CancelOrderAction{}), reflect.TypeOf(strategy.UpdatePositionAction{}), reflect.TypeOf(strategy.ClosePositionAction{}), reflect.TypeOf(strategy.AddAnnotationsAction{}),
}

func runJSON(e *env, t reflect.Type, r *rand.Rand, mode int) {
	v := reflect.New(t)
	if mode != 0 {
		fill(v.Elem(), r, 0)
	}
	fps := interned{}
	before := fps.id(v.Interface())
	back := reflect.New(t)
	var err error
	if !e.call("json", func() {
		var b []byte
		if mode%2 == 0 {
			b, err = json.Marshal(v.Interface())
		} else {
			b, err = json.Marshal(v.Elem().Interface())
		}
		if err == nil && mode%3 == 0 {
			b, err = json.MarshalIndent(json.RawMessage(b), "", "  ")
		}
		if err == nil {
			err = json.Unmarshal(b, back.Interface())
		}
	}) {
		return
	}
	e.emit(rec{"op": "json", "type": t.Name(), "err": code(err), "before": before, "after": fps.id(back.Interface()), "source": fps.id(v.Interface())})
}

func restoreInto(dst, src interface{}) error {
	b, err := json.Marshal(src)
	if err == nil {
		err = json.Unmarshal(b, dst)
	}
	return err
}

func runRestore(e *env, c restoreCase, r *rand.Rand) {
	fps := interned{}
	k := r.Intn(1000)
	if c.Subject == "book" {
		s := newScale(k, 40)
		one := market.NewOrderBook(nil, nil, 1+r.Intn(6))
		one.Time = 1600000000 + int64(k)
		twin := one
		for _, op := range c.Ops {
			var re, e1, e2 error
			u := market.OrderBookUpdate{Side: op.Sort, Price: s.price(op.P), Volume: s.volume(op.V)}
			if !e.call("twin", func() {
				if op.Restore {
					var fresh market.OrderBook
					re = restoreInto(&fresh, twin)
					twin = fresh
				}
				e1, e2 = one.ApplyUpdate(u), twin.ApplyUpdate(u)
			}) {
				return
			}
			e.emit(rec{"op": "twin", "restoreErr": code(re), "err": code(e1), "twinErr": code(e2), "one": fps.id(one), "twin": fps.id(twin)})
		}
		return
	}
	m := moneys[k%len(moneys)]
	mk := func(n int, action string, p, q int) *market.Trade {
		return m.trade(mTrade{Action: action, Pair: 1, Price: p, Qty: q * m.lot, Time: n + 1, ID: n})
	}
	one := market.NewPosition(mk(0, []string{"buy", "sell"}[k%2], 2, 2))
	one.Data, one.ExecutionID = fillStrings[k%len(fillStrings)], "x"
	one.StopLoss = market.PositionCloseOrder{Price: 1.5, OrderID: "s"}
	copied := *one
	copied.Trades = append([]string{}, one.Trades...)
	twin := &copied
	for n, op := range c.Ops {
		var re, e1, e2 error
		if !e.call("twin", func() {
			if op.Restore {
				fresh := &market.Position{}
				re = restoreInto(fresh, twin)
				twin = fresh
			}
			e1, e2 = one.Modify(mk(n+1, op.Sort, op.P, op.V)), twin.Modify(mk(n+1, op.Sort, op.P, op.V))
		}) {
			return
		}
		e.emit(rec{"op": "twin", "restoreErr": code(re), "err": code(e1), "twinErr": code(e2), "one": fps.id(one), "twin": fps.id(twin)})
	}
}

func driveRestore(e *env) {
	e.behaviours(func(id int, raw []byte) {
		var c restoreCase
		decode(raw, &c)
		runRestore(e, c, e.rng())
	})
	e.randoms(func(id int, r *rand.Rand) {
		if k := id - randomBase; k < len(jsonTypes)*2 {
			runJSON(e, jsonTypes[k/2], r, k%2*2) // zero values and one filled value of every type
			return
		}
		if r.Intn(4) != 0 {
			runJSON(e, jsonTypes[r.Intn(len(jsonTypes))], r, 1+r.Intn(6))
			return
		}
		c := restoreCase{Subject: []string{"book", "position"}[r.Intn(2)]}
		for n := 3 + r.Intn(20); n > 0; n-- {
			c.Ops = append(c.Ops, struct {
				Sort    string `json:"sort"`
				P       int    `json:"p"`
				V       int    `json:"v"`
				Restore bool   `json:"restore"`
			}{"", 1 + r.Intn(15), r.Intn(5), r.Intn(3) == 0})
			o := &c.Ops[len(c.Ops)-1]
			if c.Subject == "book" {
				o.Sort = []string{"ask", "bid", "ask", "bid", "other"}[r.Intn(5)]
			} else {
				o.Sort = []string{"buy", "sell"}[r.Intn(2)]
				o.V++
			}
		}
		runRestore(e, c, r)
	})
}

// ------------------------------------------------------------------- print

type printCase struct {
	Kind    string `json:"kind"`
	Len     int    `json:"len"`
	Fill    int    `json:"fill"`
	Missing bool   `json:"missing"`
}

var printTypes = map[string]reflect.Type{
	"order": reflect.TypeOf(market.Order{}), "trade": reflect.TypeOf(market.Trade{}), "position": reflect.TypeOf(market.Position{}),
	"annotation": reflect.TypeOf(strategy.Annotation{}), "pair": reflect.TypeOf(market.Pair{}), "balance": reflect.TypeOf(market.Balance{}),
	"assets": reflect.TypeOf(market.AssetsSnapshot{}), "snapshot": reflect.TypeOf(market.BalanceSnapshot{}), "asset": reflect.TypeOf(market.Asset{}),
	"ticker": reflect.TypeOf(market.Ticker{}), "candle": reflect.TypeOf(market.Candle{}), "book": reflect.TypeOf(market.OrderBook{}),
	"row": reflect.TypeOf(market.OrderBookRow{}), "request": reflect.TypeOf(market.OrderRequest{}), "closeorder": reflect.TypeOf(market.PositionCloseOrder{}),
	"annotations": reflect.TypeOf(strategy.AddAnnotationsAction{}),
}

func codes(s string) []int {
	out := make([]int, 0, len(s))
	for _, b := range []byte(s) {
		out = append(out, int(b))
	}
	return out
}

// idOf gives an identifier of n characters that appears nowhere else in a text.
func idOf(n int, r *rand.Rand) string {
	alphabet := []string{"Q", "Z", "X", "J", "K", "W", "V", "Y", "#", "~", "^", "|", "%"}
	if r.Intn(8) == 0 {
		alphabet = []string{"Q", "ß", "☃", "%", "é", "\x00", "\n"}
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(alphabet[r.Intn(len(alphabet))])
	}
	return b.String()
}

// oddNumbers replaces some numbers by ones that are none.
func oddNumbers(v reflect.Value, r *rand.Rand) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			oddNumbers(v.Elem(), r)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				oddNumbers(v.Field(i), r)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			oddNumbers(v.Index(i), r)
		}
	case reflect.Float64:
		if r.Intn(3) == 0 {
			v.SetFloat([]float64{math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1)}[r.Intn(4)])
		}
	}
}

func runPrint(e *env, c printCase, r *rand.Rand) {
	t := printTypes[c.Kind]
	v := reflect.New(t)
	if c.Fill > 0 {
		fill(v.Elem(), r, 0)
	}
	if c.Fill > 1 {
		oddNumbers(v.Elem(), r)
	}
	id := idOf(c.Len, r)
	if f := v.Elem().FieldByName("ID"); f.IsValid() {
		f.SetString(id)
	}
	base, quote := "", ""
	if p, ok := v.Interface().(*market.Pair); ok {
		base, quote = idOf(c.Len, r), idOf((c.Len*3+c.Fill)%7, r)
		p.Base.Symbol, p.Quote.Symbol = base, quote
	}
	if c.Missing {
		for i := 0; i < v.Elem().NumField(); i++ {
			if f := v.Elem().Field(i); f.Kind() == reflect.Ptr || f.Kind() == reflect.Slice {
				f.Set(reflect.Zero(f.Type()))
			}
		}
	}
	fps := interned{}
	before := fps.id(v.Interface())
	var text string
	if !e.call("print", func() {
		text = v.Interface().(interface{ String() string }).String()
		if ob, ok := v.Interface().(*market.OrderBook); ok {
			if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
				old := os.Stdout
				os.Stdout = null
				defer func() { os.Stdout = old; null.Close() }()
			}
			ob.Print()
		}
	}) {
		return
	}
	if len(text) > 3000 {
		text = text[:3000]
	}
	e.emit(rec{"op": "print", "kind": c.Kind, "before": before, "after": fps.id(v.Interface()), "text": codes(text), "id": codes(id), "base": codes(base), "quote": codes(quote)})
}

func drivePrint(e *env) {
	e.behaviours(func(id int, raw []byte) {
		var c printCase
		decode(raw, &c)
		runPrint(e, c, e.rng())
	})
	var kinds []string
	for _, k := range []string{"order", "trade", "position", "annotation", "pair", "balance", "assets", "snapshot", "asset", "ticker", "candle", "book", "row", "request", "closeorder", "annotations"} {
		kinds = append(kinds, k)
	}
	e.randoms(func(id int, r *rand.Rand) {
		n := r.Intn(45)
		if r.Intn(10) == 0 {
			n = 45 + r.Intn(300)
		}
		runPrint(e, printCase{Kind: kinds[r.Intn(len(kinds))], Len: n, Fill: 1 + r.Intn(2), Missing: r.Intn(4) == 0}, r)
	})
}
