package main

import (
	"bytes"
	"encoding/json"
	"math/rand"
	"reflect"

	"github.com/vanclief/finmod/market"
)

func init() { drivers["wire"] = driveWire }

type wireCase struct {
	Model  string      `json:"model"`
	Names  []string    `json:"names"`
	Layout [][2]string `json:"layout"`
}

var words = []struct {
	name string
	word interface{}
}{
	{"BuyAction", market.BuyAction}, {"SellAction", market.SellAction},
	{"MarketOrder", market.MarketOrder}, {"ClosePosition", market.ClosePosition}, {"LimitOrder", market.LimitOrder}, {"TakeProfit", market.TakeProfit}, {"StopLoss", market.StopLoss},
	{"FulfilledOrder", market.FulfilledOrder}, {"PartialyFilledOrder", market.PartialyFilledOrder}, {"UnfilledOrder", market.UnfilledOrder}, {"CanceledOrder", market.CanceledOrder},
	{"LongPosition", market.LongPosition}, {"ShortPosition", market.ShortPosition},
}

// apart fills two values of a type that differ in every one of the fields.
func apart(t reflect.Type, fields [][2]string, r *rand.Rand) (reflect.Value, reflect.Value) {
	a, b := reflect.New(t), reflect.New(t)
	fill(a.Elem(), r, 0)
	fill(b.Elem(), r, 0)
	for _, f := range fields {
		x, y := a.Elem().FieldByName(f[0]), b.Elem().FieldByName(f[0])
		for n := 0; dump(x.Interface()) == dump(y.Interface()); n++ {
			fresh := reflect.New(x.Type()).Elem()
			fill(fresh, r, 0)
			x.Set(fresh)
			if n > 50 && x.Kind() == reflect.Bool {
				x.SetBool(!y.Bool())
			}
		}
	}
	return a, b
}

func runWire(e *env, c wireCase, r *rand.Rand) {
	for _, t := range jsonTypes {
		if t.Name() != c.Model {
			continue
		}
		for _, f := range c.Layout {
			if _, ok := t.FieldByName(f[0]); !ok {
				fatal("no field", f[0], "in", c.Model)
			}
		}
		src, dst := apart(t, c.Layout, r)
		old := map[string]string{}
		for _, f := range c.Layout {
			old[f[0]] = dump(dst.Elem().FieldByName(f[0]).Interface())
		}
		values := map[string]json.RawMessage{}
		written, took, kept := []string{}, []string{}, []string{}
		var err error
		if !e.call("write", func() {
			for _, f := range c.Layout {
				raw, err := json.Marshal(src.Elem().FieldByName(f[0]).Interface())
				if err != nil {
					panic(err)
				}
				values[f[1]] = raw
			}
			var b []byte
			doc := map[string]json.RawMessage{}
			if b, err = json.Marshal(src.Interface()); err == nil {
				err = json.Unmarshal(b, &doc)
			}
			for _, f := range c.Layout {
				if raw, ok := doc[f[1]]; ok && bytes.Equal(raw, values[f[1]]) {
					written = append(written, f[1])
				}
			}
		}) {
			return
		}
		e.emit(rec{"op": "write", "model": c.Model, "err": code(err), "written": written})
		if !e.call("read", func() {
			doc := map[string]interface{}{}
			for _, n := range c.Names {
				doc[n] = values[n]
			}
			if r.Intn(4) == 0 {
				doc["unknown_name"] = r.Intn(5)
			}
			var b []byte
			if b, err = json.Marshal(doc); err == nil {
				err = json.Unmarshal(b, dst.Interface())
			}
		}) {
			return
		}
		for _, f := range c.Layout {
			now := dump(dst.Elem().FieldByName(f[0]).Interface())
			if now == dump(src.Elem().FieldByName(f[0]).Interface()) {
				took = append(took, f[0])
			}
			if now == old[f[0]] {
				kept = append(kept, f[0])
			}
		}
		e.emit(rec{"op": "read", "model": c.Model, "names": append([]string{}, c.Names...), "err": code(err), "took": took, "kept": kept})
		return
	}
	fatal("unknown model", c.Model)
}

func driveWire(e *env) {
	var cases []wireCase
	e.lines(func(line []byte) {
		var c wireCase
		decode(unquote(line), &c)
		if len(c.Names) == len(c.Layout) {
			cases = append(cases, c)
		}
	})
	e.behaviours(func(id int, raw []byte) {
		var c wireCase
		decode(raw, &c)
		runWire(e, c, e.rng())
	})
	e.randoms(func(id int, r *rand.Rand) {
		if k := id - randomBase; k < len(words) {
			w := ""
			if !e.call("word", func() {
				b, err := json.Marshal(words[k].word)
				if err == nil {
					err = json.Unmarshal(b, &w)
				}
				if err != nil {
					panic(err)
				}
			}) {
				return
			}
			e.emit(rec{"op": "word", "name": words[k].name, "word": w})
			return
		}
		c := cases[r.Intn(len(cases))]
		c.Names = nil
		for _, f := range c.Layout {
			if r.Intn(2) == 0 {
				c.Names = append(c.Names, f[1])
			}
		}
		runWire(e, c, r)
	})
}
