package main

import (
	"math"
	"math/rand"

	"github.com/vanclief/finmod/market"
)

func init() { drivers["desk"] = driveDesk }

type mOrder struct {
	Pair   int    `json:"pair"`
	Action string `json:"action"`
	Type   string `json:"type"`
	By     string `json:"by"`
	Qty    int    `json:"qty"`
	Price  int    `json:"price"`
	Cur    int    `json:"cur"`
	Fee    int    `json:"fee"`
}

// runDesk executes the orders of a session; next gives the orders, knowing what is left of each position.
func runDesk(e *env, m money, cash int, next func(k int, left map[int]int) *mOrder, r *rand.Rand) {
	e.emit(rec{"op": "start", "cash": cash})
	dress(e.rng())
	cu := m.pu * m.qu
	closed := map[string]bool{}
	var positions []*market.Position
	for k := 0; ; k++ {
		left := map[int]int{}
		for _, p := range positions {
			if p.Open {
				left[pairBack(p.Pair)] = grid(p.Quantity, m.qu, 0.001*m.qu)
			}
		}
		o := next(k, left)
		if o == nil {
			return
		}
		var tr *market.Trade
		var err error
		completed, refused := false, false
		if !e.call("order", func() {
			qty, total, at := float64(o.Qty)*m.qu, 0.0, float64(o.Price)*m.pu
			if o.By == "total" {
				exec := o.Price
				if o.Type == "market" || o.Type == "close_position" {
					exec = o.Cur
				}
				qty, total = 0, float64(o.Qty*exec)*cu
			}
			var req, done *market.OrderRequest
			req, err = market.NewOrderRequest(mPairs[o.Pair], market.ActionType(o.Action), market.OrderType(o.Type), qty, at, total)
			if err == nil {
				done, err = req.CalculateFields(float64(o.Cur) * m.pu)
			}
			if err != nil {
				return
			}
			completed = true
			price := done.Price
			if done.Type == market.MarketOrder || done.Type == market.ClosePosition {
				price = float64(o.Cur) * m.pu
			}
			cost := done.Total + float64(o.Fee)*cu
			if done.Action == market.SellAction {
				cost = done.Total - float64(o.Fee)*cu
			}
			tr = market.NewTrade(tradeID(k), mTime(k+1), done.Action, done.Type, done.Pair, price, done.Quantity, cost)
			for _, p := range positions {
				if p.Open && p.Pair == tr.Pair {
					refused = p.Modify(tr) != nil
					return
				}
			}
			p := market.NewPosition(tr)
			id := p.ID
			note(p, m, r)
			p.ID = id
			positions = append(positions, p)
		}) {
			return
		}
		out := rec{"op": "order", "o": o, "completed": completed, "refused": refused, "cost": 0, "fee": 0, "closed": false, "profit": 0}
		if tr != nil {
			tol := 0.02*cu + 1e-11*math.Abs(tr.Cost)
			out["cost"], out["fee"] = grid(tr.Cost, cu, tol), grid(tr.Fee, cu, tol)
		}
		open := []rec{}
		for _, p := range positions {
			if !p.Open {
				if !closed[p.ID] {
					closed[p.ID] = true
					out["closed"], out["profit"] = true, grid(p.Profit, cu, 0.05*cu)
				}
				continue
			}
			mark := r.Intn(60)
			var u float64
			if !e.call("order", func() { u = p.UnrealizedProfit(float64(mark) * m.pu) }) {
				return
			}
			open = append(open, rec{"type": string(p.Type), "qty": grid(p.Quantity, m.qu, 0.001*m.qu), "mark": mark, "unreal": grid(u, cu, 0.05*cu)})
		}
		out["open"] = open
		e.emit(out)
		if !completed {
			return
		}
	}
}

func driveDesk(e *env) {
	e.behaviours(func(id int, raw []byte) {
		var orders []mOrder
		decode(raw, &orders)
		m := moneys[(id+int(e.seed))%len(moneys)]
		runDesk(e, m, 1000, func(k int, left map[int]int) *mOrder {
			if k == len(orders) {
				return nil
			}
			o := orders[k]
			o.Qty *= m.tol + 1 // too much is too much by more than what is tolerated
			return &o
		}, e.rng())
	})
	types := []string{"market", "close_position", "limit", "take_profit", "stop_loss"}
	e.randoms(func(id int, r *rand.Rand) {
		m := moneys[r.Intn(len(moneys))]
		pairs, n := 1+r.Intn(4), 2+r.Intn(25)
		most := 1 + r.Intn(40)
		room := 1200000000 / (60 * n)
		runDesk(e, m, r.Intn(1000000), func(k int, left map[int]int) *mOrder {
			if k == n {
				return nil
			}
			o := &mOrder{Pair: 1 + r.Intn(pairs), Action: []string{"buy", "sell"}[r.Intn(2)], Type: types[r.Intn(5)], By: []string{"qty", "total"}[r.Intn(2)],
				Price: 1 + r.Intn(most), Cur: 1 + r.Intn(most), Fee: r.Intn(3) * r.Intn(200)}
			o.Qty = (1 + r.Intn(6)) * m.lot
			if l := left[o.Pair]; l > 0 {
				switch r.Intn(4) {
				case 0:
					o.Qty = l
				case 1:
					o.Qty = 1 + r.Intn(l)
				}
				if o.Qty > room { // the numbers of the model are finite
					o.Qty = room
				}
				if rest := l - o.Qty; rest > 0 && rest < l/1000 {
					o.Qty = 1 + l/2
				}
				if o.Qty > l && o.Qty <= l+m.tol {
					o.Qty = l
				}
			}
			return o
		}, r)
	})
}
