package main

import (
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"sync"

	"github.com/vanclief/finmod/strategy"
)

func init() { drivers["strategy"] = driveStrategy }

type strategyOp struct {
	Op    string `json:"op"`
	Obj   int    `json:"obj"`
	Kind  string `json:"kind"`
	N     int    `json:"n"`
	Carry string `json:"carry"`
}

var actionKinds = []string{"create", "update", "cancel", "move", "close"}

// actionMap is the map of one kind.
func actionMap(a *strategy.Actions, kind string) interface{} {
	switch kind {
	case "create":
		return a.CreateOrders
	case "update":
		return a.UpdateOrders
	case "cancel":
		return a.CancelOrders
	case "move":
		return a.UpdatePositions
	}
	return a.ClosePositions
}

type collection struct {
	a     *strategy.Actions
	ids   interned
	data  interned
	names map[string]bool
}

// content shows everything a collection holds: per kind [key, id, data], and the annotations.
func (c *collection) content() (rec, []int) {
	acts := rec{}
	for _, kind := range actionKinds {
		list := [][3]int{}
		m := reflect.ValueOf(actionMap(c.a, kind))
		for _, k := range m.MapKeys() {
			v := reflect.New(m.Type().Elem()).Elem()
			v.Set(m.MapIndex(k))
			id := v.FieldByName("ID").String()
			v.FieldByName("ID").SetString("")
			list = append(list, [3]int{c.ids.id(k.String()), c.ids.id(id), c.data.id(v.Interface())})
		}
		sort.Slice(list, func(i, j int) bool { return list[i][0] < list[j][0] })
		acts[kind] = list
	}
	notes := []int{}
	for _, n := range c.a.Annotations {
		notes = append(notes, c.data.id(n))
	}
	return acts, notes
}

func (c *collection) emit(e *env, r rec) {
	r["acts"], r["notes"] = c.content()
	e.emit(r)
}

func runStrategy(e *env, ops []strategyOp, prefill bool, r *rand.Rand) {
	ids, data := interned{}, interned{}
	obj := map[int]*collection{}
	var stored []string
	for o := 1; o <= 2; o++ {
		c := &collection{a: &strategy.Actions{}, ids: ids, data: data}
		if prefill {
			c.a.CreateOrders = map[string]strategy.CreateOrderAction{"mine": {ID: "mine", Symbol: "A"}, "": {Symbol: "B"}}
			c.a.ClosePositions = map[string]strategy.ClosePositionAction{}
			c.a.CancelOrders = map[string]strategy.CancelOrderAction{"key": {ID: "other", OrderID: "o"}}
			c.a.Annotations = append(make([]strategy.Annotation, 0, 1+r.Intn(4)), strategy.Annotation{ID: "first", Label: "kept"})
		}
		obj[o] = c
		c.emit(e, rec{"op": "start", "obj": o})
	}
	carry := func(how string) string {
		switch how {
		case "same":
			return "dup"
		case "stored":
			if len(stored) > 0 {
				return stored[r.Intn(len(stored))]
			}
			return "mine"
		case "other":
			if r.Intn(3) == 0 {
				return fillStrings[r.Intn(len(fillStrings))]
			}
			return []string{"a", "b", "mine", "key", "", "9m4e2mr0ui3e8a215n4g"}[r.Intn(6)]
		}
		return ""
	}
	for _, o := range ops {
		c := obj[o.Obj]
		switch o.Op {
		case "add":
			var list reflect.Value
			var add func()
			switch o.Kind {
			case "create":
				s := make([]strategy.CreateOrderAction, o.N, o.N+2)
				list, add = reflect.ValueOf(s), func() { c.a.AddCreateOrders(s...) }
			case "update":
				s := make([]strategy.UpdateOrderAction, o.N, o.N+2)
				list, add = reflect.ValueOf(s), func() { c.a.AddUpdateOrders(s...) }
			case "cancel":
				s := make([]strategy.CancelOrderAction, o.N, o.N+2)
				list, add = reflect.ValueOf(s), func() { c.a.AddCancelOrders(s...) }
			case "move":
				s := make([]strategy.UpdatePositionAction, o.N, o.N+2)
				list, add = reflect.ValueOf(s), func() { c.a.AddUpdatePositions(s...) }
			case "close":
				s := make([]strategy.ClosePositionAction, o.N, o.N+2)
				list, add = reflect.ValueOf(s), func() { c.a.AddClosePositions(s...) }
			}
			given := []int{}
			for k := 0; k < o.N; k++ {
				fill(list.Index(k), r, 0)
				if k > 0 && r.Intn(4) == 0 { // the same action twice
					list.Index(k).Set(list.Index(k - 1))
				}
				list.Index(k).FieldByName("ID").SetString("")
				given = append(given, data.id(list.Index(k).Interface()))
				list.Index(k).FieldByName("ID").SetString(carry(o.Carry))
			}
			before := data.id(list.Interface())
			if !e.call("add", add) {
				return
			}
			after := data.id(list.Interface())
			c.emit(e, rec{"op": "add", "obj": o.Obj, "kind": o.Kind, "given": given, "carry": o.Carry, "before": before, "after": after})
			for _, k := range reflect.ValueOf(actionMap(c.a, o.Kind)).MapKeys() {
				stored = append(stored, k.String())
			}
			for k := 0; k < o.N; k++ { // the caller reuses its values
				fill(list.Index(k), r, 0)
			}
			if o.N > 0 {
				c.emit(e, rec{"op": "look", "obj": o.Obj})
			}
		case "annotate":
			s := make([]strategy.Annotation, o.N, o.N+r.Intn(3))
			given := []int{}
			for k := range s {
				fill(reflect.ValueOf(s).Index(k), r, 0)
				switch r.Intn(4) {
				case 0:
					s[k].ID = ""
				case 1:
					s[k].ID = "same"
				case 2:
					s[k] = *strategy.NewAnnotation(r.Int63(), r.Float64(), "label", "tip")
				}
				if k > 0 && r.Intn(4) == 0 {
					s[k] = s[k-1]
				}
				given = append(given, data.id(s[k]))
			}
			before := data.id(s)
			if !e.call("annotate", func() { c.a.AddAnnotations(s...) }) {
				return
			}
			c.emit(e, rec{"op": "annotate", "obj": o.Obj, "given": given, "before": before, "after": data.id(s)})
			for k := range s {
				s[k] = strategy.Annotation{ID: "reused", Label: "changed by the caller"}
			}
			if o.N > 0 {
				c.emit(e, rec{"op": "look", "obj": o.Obj})
			}
		case "create":
			var want, n strategy.Annotation
			fill(reflect.ValueOf(&want).Elem(), r, 0)
			want.ID, want.CreationTime, want.ExecutionID = "", 0, ""
			var got *strategy.Annotation
			if !e.call("create", func() { got = strategy.NewAnnotation(want.Time, want.Price, want.Label, want.Tooltip) }) {
				return
			}
			if got != nil {
				n = *got
			}
			id := 0
			if strings.TrimSpace(n.ID) != "" {
				id = ids.id(n.ID)
			}
			n.ID, n.CreationTime, n.ExecutionID = "", 0, ""
			e.emit(rec{"op": "create", "id": id, "want": data.id(want), "got": data.id(n)})
		}
	}
}

// bulkAdd adds many actions of all kinds to one collection.
func bulkAdd(e *env, n int) {
	a := &strategy.Actions{}
	if !e.call("bulk", func() {
		for k := 0; k < n; k += 5 {
			a.AddCreateOrders(strategy.CreateOrderAction{ID: "x"})
			a.AddUpdateOrders(strategy.UpdateOrderAction{ID: "x"})
			a.AddCancelOrders(strategy.CancelOrderAction{})
			a.AddUpdatePositions(strategy.UpdatePositionAction{})
			a.AddClosePositions(strategy.ClosePositionAction{ID: "y"})
		}
	}) {
		return
	}
	seen := map[string]bool{}
	stored := 0
	for _, kind := range actionKinds {
		for _, k := range reflect.ValueOf(actionMap(a, kind)).MapKeys() {
			seen[k.String()] = true
			stored++
		}
	}
	e.emit(rec{"op": "bulk", "what": "add", "n": n, "stored": stored, "distinct": len(seen)})
}

// bulkCreate creates many annotations in several goroutines.
func bulkCreate(e *env, workers, each int) {
	lists := make([][]string, workers)
	if !e.call("bulk", func() {
		var wg sync.WaitGroup
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				for k := 0; k < each; k++ {
					lists[w] = append(lists[w], strategy.NewAnnotation(1, 2, "l", "t").ID)
				}
			}(w)
		}
		wg.Wait()
	}) {
		return
	}
	seen := map[string]bool{}
	for _, l := range lists {
		for _, id := range l {
			seen[id] = true
		}
	}
	e.emit(rec{"op": "bulk", "what": "create", "n": workers * each, "stored": 0, "distinct": len(seen)})
}

func driveStrategy(e *env) {
	e.behaviours(func(id int, raw []byte) {
		var ops []strategyOp
		decode(raw, &ops)
		runStrategy(e, ops, id%3 == 0, e.rng())
	})
	e.randoms(func(id int, r *rand.Rand) {
		switch id - randomBase {
		case 0:
			bulkAdd(e, 200000)
			return
		case 1:
			bulkCreate(e, 8, 30000)
			return
		case 2:
			bulkCreate(e, 1, 200000)
			return
		}
		var ops []strategyOp
		many := r.Intn(12) == 0
		for n := 1 + r.Intn(12); n > 0; n-- {
			o := strategyOp{Op: "add", Obj: 1 + r.Intn(2), Kind: actionKinds[r.Intn(5)], N: r.Intn(5), Carry: []string{"none", "same", "stored", "other"}[r.Intn(4)]}
			if many {
				o.N = r.Intn(40)
			}
			switch k := r.Intn(10); {
			case k < 3 || e.prop == "C33" && k < 6:
				o.Op = "annotate"
			case k == 7 || e.prop == "C33" && k < 9:
				o.Op = "create"
			}
			ops = append(ops, o)
		}
		runStrategy(e, ops, r.Intn(3) == 0, r)
	})
}
