package main

import (
	"math"
	"math/rand"
	"reflect"
	"time"

	"github.com/vanclief/finmod/market"
	"github.com/vanclief/finmod/strategy"
)

func init() {
	drivers["request"] = driveRequest
	drivers["status"] = driveStatus
}

type mRequest struct {
	Base   bool   `json:"base"`
	Action string `json:"action"`
	Type   string `json:"type"`
	Qty    int    `json:"qty"`
	Price  int    `json:"price"`
	Total  int    `json:"total"`
}

type requestCase struct {
	Req mRequest `json:"req"`
	Cur [2]int   `json:"cur"`
}

func (m money) requestBack(r *market.OrderRequest) mRequest {
	return mRequest{r.Pair.Base.Symbol != "", string(r.Action), string(r.Type), grid(r.Quantity, m.qu, 1e-9*m.qu), grid(r.Price, m.pu, 1e-9*m.pu), grid(r.Total, m.pu*m.qu, 1e-6*m.pu*m.qu)}
}

func nonZero(x float64) int {
	if x != 0 {
		return 1
	}
	return 0
}

func runRequest(e *env, m money, c requestCase, k int) {
	r := c.Req
	pair := mPairs[1+k%(len(mPairs)-1)]
	if !r.Base {
		pair = market.Pair{Quote: mPairs[1+k%4].Quote}
	}
	qty, price, total := float64(r.Qty)*m.qu, float64(r.Price)*m.pu, float64(r.Total)*m.pu*m.qu
	var req *market.OrderRequest
	var err error
	if !e.call("create", func() {
		req, err = market.NewOrderRequest(pair, market.ActionType(r.Action), market.OrderType(r.Type), qty, price, total)
	}) {
		return
	}
	if err != nil || req == nil {
		e.emit(rec{"op": "create", "req": r, "err": code(err), "got": mRequest{}, "same": false})
		// Nothing stops a caller from filling in a request on their own.
		req = &market.OrderRequest{Action: market.ActionType(r.Action), Type: market.OrderType(r.Type), Pair: pair, Price: price, Quantity: qty, Total: total}
	} else {
		e.emit(rec{"op": "create", "req": r, "err": code(err), "got": m.requestBack(req), "same": req.Pair == pair && req.TakeProfit == 0 && req.StopLoss == 0})
	}
	req.TakeProfit, req.StopLoss = float64(k%3)*1.5, float64(k%4)*0.75
	if k%5 == 0 {
		req.TakeProfit, req.StopLoss = float64(k%41)*m.pu, float64(k%37)*m.pu
	}
	if k%7 == 0 {
		req.TakeProfit, req.StopLoss = price, -price
	}
	for _, cur := range c.Cur {
		before := dump(*req)
		current := float64(cur) * m.pu
		var got *market.OrderRequest
		if !e.call("complete", func() { got, err = req.CalculateFields(current) }) {
			return
		}
		if err == nil && got == nil {
			e.emit(rec{"op": "complete", "panic": true, "note": "neither a request nor an error"})
			return
		}
		out := rec{"op": "complete", "req": m.requestBack(req), "cur": cur, "err": code(err), "before": before, "after": dump(*req)}
		if err == nil {
			rest, restGot := *req, *got
			rest.Quantity, rest.Total, restGot.Quantity, restGot.Total = 0, 0, 0, 0
			out["rest"], out["restGot"] = dump(rest), dump(restGot)
			out["gotQty"] = grid(got.Quantity, m.qu, 1e-9*m.qu)
			tol := m.pu*m.qu*1e-6 + 1e-11*math.Abs(got.Total)
			out["gotTotal"] = grid(got.Total, m.pu*m.qu, tol)
			out["byCurrent"] = grid(got.Quantity*current, m.pu*m.qu, tol)
			out["byPrice"] = grid(got.Quantity*got.Price, m.pu*m.qu, tol)
		}
		e.emit(out)
		if err == nil {
			var err2 error
			rr := mRequest{r.Base, r.Action, r.Type, nonZero(got.Quantity), nonZero(got.Price), nonZero(got.Total)}
			if !e.call("again", func() { _, err2 = got.CalculateFields(current) }) {
				return
			}
			e.emit(rec{"op": "again", "req": rr, "cur": cur, "err": code(err2)})
			// scribble over the result: the request must not be affected
			got.Quantity, got.Total, got.Price, got.Pair = -1, -1, -1, market.Pair{}
		}
	}
}

// runAgree completes one order given by quantity and by total, and k times the order with what must not matter changed.
func runAgree(e *env, m money, c requestCase, r *rand.Rand) {
	q := c.Req
	cur := c.Cur[0]
	ref := q.Price
	if q.Type == "market" || q.Type == "close_position" {
		ref = cur
	}
	if q.Qty %= 2000; q.Qty == 0 {
		q.Qty = q.Total % 2000
	}
	if ref == 0 || q.Qty == 0 {
		return
	}
	k := 2 + r.Intn(8)
	complete := func(qty, total int, another bool) (out rec, ok bool) {
		req := market.OrderRequest{Action: market.ActionType(q.Action), Type: market.OrderType(q.Type), Pair: mPairs[1], Price: float64(q.Price) * m.pu, Quantity: float64(qty) * m.qu, Total: float64(total) * m.pu * m.qu}
		current := float64(cur) * m.pu
		if another {
			req.Action, req.Pair = market.ActionType([]string{"buy", "sell", "other"}[r.Intn(3)]), mPairs[1+r.Intn(len(mPairs)-1)]
			req.TakeProfit, req.StopLoss = float64(r.Intn(50))*m.pu, float64(r.Intn(50))*m.pu
			if q.Type == "market" || q.Type == "close_position" {
				req.Price = float64(r.Intn(40000)) * m.pu
			} else {
				current = float64(r.Intn(40000)) * m.pu
			}
		}
		var got *market.OrderRequest
		var err error
		ok = e.call("agree", func() { got, err = req.CalculateFields(current) })
		out = rec{"err": code(err), "qty": 0, "total": 0}
		if got != nil {
			out["qty"] = grid(got.Quantity, m.qu, 1e-9*m.qu+1e-11*math.Abs(got.Quantity))
			out["total"] = grid(got.Total, m.pu*m.qu, 1e-6*m.pu*m.qu+1e-11*math.Abs(got.Total))
		}
		return
	}
	out := rec{"op": "agree", "req": q, "ref": ref, "k": k}
	for _, x := range []struct {
		name       string
		qty, total int
		another    bool
	}{{"a", q.Qty, 0, false}, {"b", 0, q.Qty * ref, false}, {"c", k * q.Qty, 0, true}, {"d", 0, k * q.Qty * ref, true}} {
		got, ok := complete(x.qty, x.total, x.another)
		if !ok {
			return
		}
		out[x.name] = got
	}
	e.emit(out)
}

func driveRequest(e *env) {
	e.behaviours(func(id int, raw []byte) {
		var c requestCase
		decode(raw, &c)
		if e.prop == "C57" {
			runAgree(e, moneys[(id+int(e.seed))%len(moneys)], c, e.rng())
			return
		}
		runRequest(e, moneys[(id+int(e.seed))%len(moneys)], c, id)
	})
	types := []string{"market", "close_position", "limit", "take_profit", "stop_loss", "other"}
	e.randoms(func(id int, r *rand.Rand) {
		c := requestCase{Req: mRequest{Base: r.Intn(10) != 0, Action: []string{"buy", "sell", "buy", "sell", "buy", "sell", "hold", "short", "BUY", "Sell ", " ", "long", "0"}[r.Intn(13)], Type: types[r.Intn(6)]}}
		amount := func(max int) int {
			if r.Intn(6) == 0 {
				return 0
			}
			return 1 + r.Intn(max)
		}
		c.Req.Qty, c.Req.Total = amount(40000), amount(1000000000)
		switch r.Intn(5) {
		case 0, 1:
			c.Req.Qty = 0
		case 2, 3:
			c.Req.Total = 0
		}
		c.Req.Price, c.Cur = amount(40000), [2]int{amount(40000), amount(40000)}
		switch r.Intn(12) {
		case 0:
			c.Req.Qty = -c.Req.Qty
		case 1:
			c.Req.Total = -c.Req.Total
		case 2:
			c.Req.Price, c.Cur[0] = -c.Req.Price, -c.Cur[0]
		case 3:
			c.Req.Qty = amount(1000)
			c.Req.Total = []int{c.Req.Qty, -c.Req.Qty}[r.Intn(2)]
		}
		if e.prop == "C57" {
			runAgree(e, moneys[r.Intn(len(moneys))], c, r)
			return
		}
		runRequest(e, moneys[r.Intn(len(moneys))], c, r.Intn(10000))
	})
}

// ------------------------------------------------------------------ status

type statusOp struct {
	Op     string `json:"op"`
	Status string `json:"status"`
	Fill   int    `json:"fill"`
}

// filled gives an order with everything but the status set in one of several ways.
func filled(fill int, status string) *market.Order {
	o := &market.Order{Status: market.OrderStatus(status)}
	p := mPairs[1]
	switch fill {
	case 1:
		*o = market.Order{ID: "o-1", Action: market.BuyAction, Type: market.LimitOrder, Pair: &p, Price: 10, Volume: 2, ExecutedVolume: 2, Fee: 0.1, Cost: 20, OpenTime: mTime(1), CloseTime: mTime(5), Trades: []string{"a", "b"}, PositionID: "p", ExecutionID: "x"}
	case 2:
		*o = market.Order{ID: "o-2", Action: market.SellAction, Type: market.MarketOrder, Pair: &p, Price: 10, Volume: 2, ExecutedVolume: 1}
	case 3:
		*o = market.Order{ID: "o-3", Volume: 2, ExecutedVolume: 3, CloseTime: time.Now()}
	case 4:
		*o = market.Order{ID: "o-4", Type: market.StopLoss, Volume: 2, OpenTime: mTime(9)}
	case 5:
		*o = market.Order{ID: "o-5", Type: market.ClosePosition, CloseTime: mTime(2), OpenTime: mTime(3)}
	case 6:
		*o = market.Order{ID: "o-6", Type: market.TakeProfit, Volume: math.Inf(1), Trades: []string{}}
	case 7:
		*o = market.Order{Volume: -1, ExecutedVolume: -1, Price: math.NaN(), PositionID: "p", TakeProfit: 1, StopLoss: 2}
	}
	o.Status = market.OrderStatus(status)
	return o
}

func runStatus(e *env, ops []statusOp, fill func(k int, op statusOp) *market.Order) {
	order := &market.Order{}
	emit := func(kind, status string) bool {
		var open, again bool
		if !e.call("order", func() { open = order.IsOpen(); again = order.IsOpen() }) {
			return false
		}
		e.emit(rec{"op": "order", "kind": kind, "status": status, "open": open, "again": again})
		return true
	}
	if !emit("new", "") {
		return
	}
	for k, op := range ops {
		op := op
		k := k
		if !e.call("order", func() {
			switch op.Op {
			case "update":
				_ = order.Update(fill(k, op))
			case "assign":
				*order = *fill(k, op)
			case "status":
				order.Status = market.OrderStatus(op.Status)
			case "bad":
				bad := []interface{}{*fill(k, op), nil, op.Status, &market.Trade{ID: "t"}, &market.Position{ID: "p"}, &strategy.Annotation{ID: "a"}, map[string]interface{}{"status": op.Status}, market.OrderStatus(op.Status)}
				_ = order.Update(bad[(k+len(op.Status)+len(ops))%len(bad)])
			}
		}) || !emit(op.Op, op.Status) {
			return
		}
	}
}

func driveStatus(e *env) {
	e.behaviours(func(id int, raw []byte) {
		var ops []statusOp
		decode(raw, &ops)
		runStatus(e, ops, func(k int, op statusOp) *market.Order { return filled(op.Fill, op.Status) })
	})
	statuses := []string{"", "fulfilled", "canceled", "partial_fill", "unfilled", "Fulfilled", "cancelled", "CANCELED", "open", "closed", "rejected", "expired", "fulfilled ", "filled", "canceled_by_user"}
	e.randoms(func(id int, r *rand.Rand) {
		var ops []statusOp
		for n := 1 + r.Intn(15); n > 0; n-- {
			ops = append(ops, statusOp{Op: []string{"update", "update", "assign", "bad", "status"}[r.Intn(5)], Status: statuses[r.Intn(len(statuses))], Fill: r.Intn(8)})
		}
		runStatus(e, ops, func(k int, op statusOp) *market.Order {
			o := &market.Order{}
			fill(reflect.ValueOf(o).Elem(), r, 0)
			o.Status = market.OrderStatus(op.Status)
			return o
		})
	})
}
