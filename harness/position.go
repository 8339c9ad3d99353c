package main

import (
	"encoding/json"
	"math"
	"math/rand"
	"sort"
	"strings"
	"time"

	"github.com/vanclief/finmod/market"
)

func init() {
	drivers["position"] = drivePosition
	drivers["ledger"] = driveLedger
	drivers["trade"] = driveTrade
}

// trade as in the model; qty in units
type mTrade struct {
	Action string `json:"action"`
	Pair   int    `json:"pair"`
	Price  int    `json:"price"`
	Qty    int    `json:"qty"`
	Time   int    `json:"time"`
	ID     int    `json:"-"`
}

// A money scale: price unit, quantity unit and the oversize (in units) that still closes a position.
type money struct {
	pu, qu float64
	lot    int
	tol    int
}

var moneys = []money{
	{1, 1.0 / 16384, 16384, 1},
	{100.5, 1.0 / 16384, 16384, 1},
	{0.01, 1.0 / 16384, 16384, 1},
	{1e-6, 1.0 / 16384, 16384, 1},
	{27000, 1.0 / 16384, 16384, 1},
	{1, 1, 1, 0},
	{0.1, 0.1, 1, 0},
	{3.3, 0.07, 1, 0},
	{12345.678, 0.001, 10, 0},
	{1e-8, 1e6, 1, 0},
	{2, 3e-6, 1, 33},
	{500, 3e-6, 1000, 33},
	{0.5, 0.125, 8, 0},
	{45000, 7e-8, 100000, 1428},
	{3e9, 1, 1, 0},
	{1e-10, 5e9, 1, 0},
	{1e5, 1000, 1, 0},
	{1, 1e10, 1, 0},
}

func mTime(t int) time.Time { return now.first.Add(time.Duration(t) * now.step) }

func mTimeBack(t time.Time) int {
	if t.IsZero() {
		return 0
	}
	d := t.Sub(now.first)
	n := d / now.step
	if d%now.step != 0 || n <= 0 || n > 1000000 {
		return off
	}
	return int(n)
}

var mPairs = []market.Pair{
	{},
	{Base: market.Asset{Symbol: "BTC", Name: "Bitcoin"}, Quote: market.Asset{Symbol: "USD", Name: "US Dollar"}},
	{Base: market.Asset{Symbol: "ETH", Name: "Ethereum"}, Quote: market.Asset{Symbol: "USD", Name: "US Dollar"}},
	{Base: market.Asset{Symbol: "BTC", Name: "Bitcoin"}, Quote: market.Asset{Symbol: "EUR", Name: "Euro"}},
	{Base: market.Asset{Symbol: "USD", Name: "US Dollar"}, Quote: market.Asset{Symbol: "BTC", Name: "Bitcoin"}},
	{Base: market.Asset{Symbol: "BTC", Name: "Bitcoin"}},
	{Base: market.Asset{Symbol: "BT", Name: "Bitcoin"}, Quote: market.Asset{Symbol: "CUSD", Name: "US Dollar"}},
	{Base: market.Asset{Symbol: "btc", Name: "Bitcoin"}, Quote: market.Asset{Symbol: "USD", Name: "US Dollar"}},
	{Base: market.Asset{Symbol: "BTC", Name: "Bitcoin"}, Quote: market.Asset{Symbol: "USDT", Name: "US Dollar"}},
	{Base: market.Asset{Symbol: "BTC", Name: "Bitcoin"}, Quote: market.Asset{Symbol: "USD", Name: "US Dollar", AltSymbol: "ZUSD"}},
	{Base: market.Asset{Symbol: "BTCB", Name: "Bitcoin"}, Quote: market.Asset{Symbol: "USD", Name: "US Dollar"}},
	{Base: market.Asset{Symbol: "BTC"}, Quote: market.Asset{Symbol: "USD"}},
	{Base: market.Asset{Symbol: "XBT", Name: "Bitcoin", AltSymbol: "XXBT"}, Quote: market.Asset{Symbol: "USD", Name: "US Dollar", AltSymbol: "ZUSD"}},
	{Base: market.Asset{Symbol: "1INCH-PERP_2", Name: "ünï \"coin\" 100%"}, Quote: market.Asset{Symbol: "us d", Name: "Dollar, long: " + strings.Repeat("name/", 20)}},
	{Base: market.Asset{Symbol: "USD", Name: "US Dollar"}, Quote: market.Asset{Symbol: "USD", Name: "US Dollar"}},
}

func pairBack(p market.Pair) int {
	for i, q := range mPairs {
		if p == q {
			return i
		}
	}
	return off
}

var mOrderTypes = []market.OrderType{market.MarketOrder, market.LimitOrder, market.StopLoss, market.TakeProfit, market.ClosePosition, ""}

func (m money) trade(t mTrade) *market.Trade {
	price, qty := float64(t.Price)*m.pu, float64(t.Qty)*m.qu
	out := market.NewTrade(tradeID(t.ID), mTime(t.Time), market.ActionType(t.Action), mOrderTypes[(t.ID+now.kinds)%len(mOrderTypes)], mPairs[t.Pair], price, qty, price*qty*now.fee)
	out.ExecutionID = now.exec
	return out
}

func (m money) rec(t mTrade) rec {
	return rec{"action": t.Action, "pair": t.Pair, "price": t.Price, "qty": t.Qty, "time": t.Time}
}

func (m money) obs(p *market.Position, fps interned) rec {
	return rec{
		"type": string(p.Type), "pair": pairBack(p.Pair), "open": p.Open,
		"qty":    grid(p.Quantity, m.qu, 0.001*m.qu),
		"basis":  grid(p.OpenPrice*p.Quantity, m.pu*m.qu, 0.05*m.pu*m.qu),
		"close":  grid(p.ClosePrice, m.pu, 1e-9*m.pu),
		"profit": grid(p.Profit, m.pu*m.qu, 0.05*m.pu*m.qu),
		"ct":     mTimeBack(p.CloseTime),
		"fp":     fps.id(*p),
	}
}

// frame is the part of a position no trade may change.
func frame(p *market.Position) interface{} {
	return []interface{}{p.ID, p.Type, p.Pair, p.OpenTime, p.TakeProfit, p.StopLoss, p.ExecutionID, p.Data}
}

// runIdentity opens positions from the same trade, one after the other and at once, and trades with one of them.
func runIdentity(e *env, m money, trades []mTrade, r *rand.Rand) {
	fps, ids := interned{}, map[string]bool{}
	first := trades[0]
	first.ID, first.Time = 1, timed(0, 1+r.Intn(1000), r)
	tr := m.trade(first)
	before := fps.id(tr)
	many := make([]*market.Position, 2+r.Intn(40))
	if !e.call("born", func() {
		done := make(chan bool)
		for k := 0; k < len(many)/2; k++ {
			many[k] = market.NewPosition(tr)
		}
		for w := 0; w < 2; w++ {
			go func(w int) {
				defer func() { done <- recover() == nil }()
				for k := len(many)/2 + w; k < len(many); k += 2 {
					many[k] = market.NewPosition(tr)
				}
			}(w)
		}
		a, b := <-done, <-done
		if !a || !b {
			panic("a position could not be opened")
		}
	}) {
		return
	}
	for _, p := range many {
		dup := ids[p.ID] || p.ID == ""
		ids[p.ID] = true
		e.emit(rec{"op": "born", "t": m.rec(first), "dup": dup, "before": before, "after": fps.id(tr),
			"type": string(p.Type), "pair": pairBack(p.Pair), "open": p.Open, "ot": mTimeBack(p.OpenTime), "ct": mTimeBack(p.CloseTime),
			"price": grid(p.OpenPrice, m.pu, 0), "qty": grid(p.Quantity, m.qu, 0), "close": grid(p.ClosePrice, m.pu, 0), "profit": grid(p.Profit, m.pu, 0),
			"blank":  p.TakeProfit == market.PositionCloseOrder{} && p.StopLoss == market.PositionCloseOrder{} && p.ExecutionID == "" && p.Data == "",
			"trades": len(p.Trades)})
	}
	p := many[r.Intn(len(many))]
	if r.Intn(4) != 0 { // the owner sets targets and notes
		p.TakeProfit = market.PositionCloseOrder{Price: float64(r.Intn(40)) * m.pu, OrderID: fillStrings[r.Intn(len(fillStrings))]}
		p.StopLoss = market.PositionCloseOrder{Price: float64(r.Intn(40)) * m.pu, OrderID: fillStrings[r.Intn(len(fillStrings))]}
		p.ExecutionID, p.Data = fillStrings[r.Intn(len(fillStrings))], fillStrings[r.Intn(len(fillStrings))]
	}
	if r.Intn(6) == 0 {
		p.ID = fillStrings[r.Intn(len(fillStrings))]
	}
	if r.Intn(6) == 0 {
		p.OpenTime = time.Time{}
	}
	for k, t := range trades[1:] {
		t.ID = k + 2
		t.Time = timed(t.Time, 1+r.Intn(2000), r)
		tr := m.trade(t)
		given, kept := fps.id(tr), fps.id(frame(p))
		var err error
		if !e.call("live", func() { err = p.Modify(tr) }) {
			return
		}
		e.emit(rec{"op": "live", "err": code(err), "given": given, "still": fps.id(tr), "frame": kept, "frameAfter": fps.id(frame(p))})
	}
}

// runMirrored executes a history and its mirror image, with buys and sells swapped.
func runMirrored(e *env, m money, trades []mTrade, r *rand.Rand) {
	var a, b *market.Position
	fps := interned{}
	for k, t := range trades {
		t.ID = k + 1
		t.Time = timed(t.Time, 3*k+1, r)
		u := t
		u.Action = other(t.Action)
		var e1, e2 error
		if !e.call("mirror", func() {
			if k == 0 {
				a, b = market.NewPosition(m.trade(t)), market.NewPosition(m.trade(u))
				note(a, m, r)
				note(b, m, r)
			} else {
				e1, e2 = a.Modify(m.trade(t)), b.Modify(m.trade(u))
			}
		}) {
			return
		}
		unreal := [][2]int{}
		for n := 0; n < 4; n++ {
			price := float64(r.Intn(60)-5) * m.pu
			var x, y float64
			if !e.call("mirror", func() { x, y = a.UnrealizedProfit(price), b.UnrealizedProfit(price) }) {
				return
			}
			tol := 0.05 * m.pu * m.qu
			unreal = append(unreal, [2]int{grid(x, m.pu*m.qu, tol), grid(y, m.pu*m.qu, tol)})
		}
		oa, ob := m.obs(a, fps), m.obs(b, fps)
		delete(oa, "fp")
		delete(ob, "fp")
		e.emit(rec{"op": "mirror", "errA": code(e1), "errB": code(e2), "a": oa, "b": ob, "tradesA": a.Trades, "tradesB": b.Trades, "unreal": unreal})
	}
}

// parts divides a quantity; nothing is left over after all but the last if at most `left` may be used before it.
func parts(r *rand.Rand, qty, left int) []int {
	last := qty/4 + 1
	if over := qty - left; over > 0 {
		last += over
	}
	out := []int{}
	for n := r.Intn(4); n > 0 && qty > last; n-- {
		q := 1 + r.Intn(qty-last)
		out = append(out, q)
		qty -= q
	}
	return append(out, qty)
}

// runSplit executes a history, and the same history with accepted trades divided into smaller ones.
func runSplit(e *env, m money, trades []mTrade, r *rand.Rand) {
	var a, b *market.Position
	fps := interned{}
	id := 0
	for k, t := range trades {
		if k > 30 {
			return
		}
		t.Time = timed(t.Time, 3*k+1, r)
		t.ID = k + 1
		var err error
		divided, errs := []int{t.Qty}, []string{}
		if !e.call("split", func() {
			left := t.Qty
			if k == 0 {
				a = market.NewPosition(m.trade(t))
				note(a, m, r)
			} else {
				if (a.Type == market.LongPosition) != (t.Action == "buy") {
					left = grid(a.Quantity, m.qu, 0.001*m.qu)
				}
				err = a.Modify(m.trade(t))
			}
			if err == nil && t.Qty > 0 {
				divided = parts(r, t.Qty, left)
			}
			for n, q := range divided {
				id++
				u := t
				u.ID, u.Qty = id, q
				if k == 0 && n == 0 {
					b = market.NewPosition(m.trade(u))
					note(b, m, r)
					continue
				}
				errs = append(errs, code(b.Modify(m.trade(u))))
			}
		}) {
			return
		}
		oa, ob := m.obs(a, fps), m.obs(b, fps)
		delete(oa, "fp")
		delete(ob, "fp")
		e.emit(rec{"op": "split", "t": m.rec(t), "parts": divided, "err": code(err), "errs": errs, "a": oa, "b": ob})
	}
}

// runRescaled executes a history, and the same history with prices and quantities in other units or with prices from another origin.
func runRescaled(e *env, m money, trades []mTrade, r *rand.Rand) {
	var a, b *market.Position
	fps := interned{}
	other := m
	other.pu *= []float64{1, 1, 2, 0.5, 3, 1000, 0.001, 1e-6}[r.Intn(8)]
	by, lowest := 0, trades[0].Price
	for _, t := range trades {
		if t.Price < lowest {
			lowest = t.Price
		}
	}
	if r.Intn(2) == 0 {
		by = r.Intn(40)
		if lowest > 1 && r.Intn(3) == 0 {
			by = -r.Intn(lowest)
		}
	}
	times := []int{1, 1, 1, 2, 3, 1000}[r.Intn(6)]
	other.qu *= float64(times)
	for k, t := range trades {
		t.Time = timed(t.Time, 3*k+1, r)
		t.ID = k + 1
		u := t
		u.Price += by
		var e1, e2 error
		if k > 0 && times > 1 && a.Open {
			if left := grid(a.Quantity, m.qu, 0.001*m.qu); t.Qty > left && t.Qty <= left+m.tol {
				return // larger than the position by an absolute amount
			}
		}
		if !e.call("rescaled", func() {
			if k == 0 {
				a, b = market.NewPosition(m.trade(t)), market.NewPosition(other.trade(u))
				note(a, m, r)
				note(b, other, r)
			} else {
				e1, e2 = a.Modify(m.trade(t)), b.Modify(other.trade(u))
			}
		}) {
			return
		}
		unreal := [][2]int{}
		for n := 0; n < 4; n++ {
			price := r.Intn(60)
			var x, y float64
			if !e.call("rescaled", func() {
				x, y = a.UnrealizedProfit(float64(price)*m.pu), b.UnrealizedProfit(float64(price+by)*other.pu)
			}) {
				return
			}
			unreal = append(unreal, [2]int{grid(x, m.pu*m.qu, 0.05*m.pu*m.qu), grid(y, other.pu*other.qu, 0.05*other.pu*other.qu)})
		}
		oa, ob := m.obs(a, fps), other.obs(b, fps)
		delete(oa, "fp")
		delete(ob, "fp")
		e.emit(rec{"op": "rescaled", "t": m.rec(t), "by": by, "errA": code(e1), "errB": code(e2), "a": oa, "b": ob, "unreal": unreal})
	}
}

// steady keeps of a history what is accepted and does not close the position; nothing small is left of much.
func steady(trades []mTrade) (out []mTrade, left int) {
	most := 0
	for k, t := range trades {
		q := t.Qty
		if t.Action != trades[0].Action {
			q = -q
		}
		if k > 0 && (t.Pair != trades[0].Pair || q == 0 || left+q <= most/1000) {
			continue
		}
		if left += q; left > most {
			most = left
		}
		out = append(out, t)
	}
	return
}

// runReordered executes the same trades in two orders, and then closes both positions.
func runReordered(e *env, m money, trades []mTrade, r *rand.Rand) {
	if len(trades) > 40 {
		trades = trades[:40]
	}
	ts, left := steady(trades)
	if len(ts) < 2 || trades[0].Qty == 0 {
		return
	}
	for k := range ts {
		ts[k].ID, ts[k].Time = k+1, timed(ts[k].Time, 3*k+1, r)
	}
	us := append([]mTrade{}, ts...)
	for n := 0; ; n++ {
		r.Shuffle(len(us), func(i, j int) { us[i], us[j] = us[j], us[i] })
		if kept, _ := steady(us); us[0].Action == ts[0].Action && us[0].Qty > 0 && len(kept) == len(us) {
			break
		}
		if n == 20 { // what adds first
			sort.SliceStable(us, func(i, j int) bool { return us[i].Action == ts[0].Action && us[j].Action != ts[0].Action })
			break
		}
	}
	fps := interned{}
	errs := []string{}
	live := func(list []mTrade) (p *market.Position, ok bool) {
		ok = e.call("reordered", func() {
			for k, t := range list {
				if k == 0 {
					p = market.NewPosition(m.trade(t))
					note(p, m, r)
				} else {
					errs = append(errs, code(p.Modify(m.trade(t))))
				}
			}
		})
		return
	}
	a, ok := live(ts)
	if !ok {
		return
	}
	b, ok := live(us)
	if !ok {
		return
	}
	oa, ob := m.obs(a, fps), m.obs(b, fps)
	end := mTrade{Action: other(ts[0].Action), Pair: ts[0].Pair, Price: r.Intn(50), Qty: left, Time: 500, ID: 1000}
	if !e.call("reordered", func() {
		errs = append(errs, code(a.Modify(m.trade(end))), code(b.Modify(m.trade(end))))
	}) {
		return
	}
	ca, cb := m.obs(a, fps), m.obs(b, fps)
	for _, o := range []rec{oa, ob, ca, cb} {
		delete(o, "fp")
	}
	recs := func(list []mTrade) []rec {
		out := []rec{}
		for _, t := range list {
			out = append(out, m.rec(t))
		}
		return out
	}
	e.emit(rec{"op": "reordered", "ts": recs(ts), "us": recs(us), "end": m.rec(end), "errs": errs, "a": oa, "b": ob, "closedA": ca, "closedB": cb})
}

// runPosition executes one history of trades; with reuse the caller keeps one trade variable.
func runPosition(e *env, m money, trades []mTrade, reuse bool, r *rand.Rand) {
	fps := interned{}
	var p *market.Position
	var one market.Trade
	for k, t := range trades {
		t.ID = k + 1
		t.Time = timed(t.Time, 3*k+1, r)
		tr := m.trade(t)
		if reuse {
			one = *tr
			tr = &one
		}
		if k == 0 {
			if !e.call("open", func() { p = market.NewPosition(tr) }) {
				return
			}
			note(p, m, r)
			e.emit(rec{"op": "open", "t": m.rec(t), "tol": m.tol, "obs": m.obs(p, fps)})
		} else {
			var err error
			if !e.call("mod", func() { err = p.Modify(tr) }) {
				return
			}
			e.emit(rec{"op": "mod", "t": m.rec(t), "tol": m.tol, "err": code(err), "obs": m.obs(p, fps)})
		}
		if reuse {
			one = market.Trade{ID: "scribble", Price: -1, Quantity: -5}
		}
		if e.prop == "C11" && p.Open {
			for _, pr := range []float64{0, 1, 2, 3, 7, 40, 0.37, 1e-6, 1e4, 1e9, -2} {
				if !unrealized(e, m, p, pr*m.pu, fps) {
					return
				}
			}
			if !unrealized(e, m, p, p.OpenPrice, fps) {
				return
			}
		}
	}
}

func unrealized(e *env, m money, p *market.Position, price float64, fps interned) bool {
	var u float64
	if !e.call("unreal", func() { u = p.UnrealizedProfit(price) }) {
		return false
	}
	clone := *p
	clone.Trades = append([]string{}, p.Trades...)
	action := market.SellAction
	if p.Type == market.ShortPosition {
		action = market.BuyAction
	}
	var err error
	if !e.call("mod", func() {
		err = clone.Modify(market.NewTrade("close", mTime(9999), action, market.MarketOrder, p.Pair, price, p.Quantity, price*p.Quantity))
	}) {
		return false
	}
	scale := (math.Abs(price) + math.Abs(p.OpenPrice)) * math.Abs(p.Quantity)
	diff := math.Round((u - clone.Profit) / (1e-9*scale + 1e-300))
	d := off
	if !math.IsNaN(diff) && math.Abs(diff) < 1e9 {
		d = int(diff)
	}
	e.emit(rec{"op": "unreal", "closed": err == nil && !clone.Open, "diff": d, "fp": fps.id(*p)})
	return true
}

func other(a string) string {
	if a == "buy" {
		return "sell"
	}
	return "buy"
}

func drivePosition(e *env) {
	e.behaviours(func(id int, raw []byte) {
		var trades []mTrade
		decode(raw, &trades)
		dress(e.rng())
		anotherPair(e.rng())
		m := moneys[(id+int(e.seed))%len(moneys)]
		lot := m.lot
		if m.tol != 1 {
			lot = 1 // keep the amounts of the model
		}
		for k := range trades {
			q := trades[k].Qty
			n := (q + 5) / 10
			if m.tol == 1 {
				trades[k].Qty = n*lot + q - 10*n
			}
			if trades[k].Pair == 2 {
				trades[k].Pair = 2 + (id+k)%(len(mPairs)-2)
			}
		}
		switch e.prop {
		case "C41":
			runIdentity(e, m, trades, e.rng())
		case "C45":
			runMirrored(e, m, trades, e.rng())
		case "C49":
			runSplit(e, m, trades, e.rng())
		case "C50":
			runRescaled(e, m, trades, e.rng())
		case "C55":
			runReordered(e, m, trades, e.rng())
		default:
			runPosition(e, m, trades, id%2 == 0, e.rng())
		}
	})
	e.randoms(func(id int, r *rand.Rand) {
		dress(r)
		anotherPair(r)
		m := moneys[r.Intn(len(moneys))]
		trades := randomTrades(r, m)
		switch e.prop {
		case "C41":
			runIdentity(e, m, trades, r)
		case "C45":
			runMirrored(e, m, trades, r)
		case "C49":
			runSplit(e, m, trades, r)
		case "C50":
			runRescaled(e, m, trades, r)
		case "C55":
			runReordered(e, m, trades, r)
		default:
			runPosition(e, m, trades, r.Intn(2) == 0, r)
		}
	})
}

// randomTrades keeps an account of what should be left, to end histories in interesting ways.
func randomTrades(r *rand.Rand, m money) []mTrade {
	first := []string{"buy", "sell"}[r.Intn(2)]
	maxPrice := []int{3, 10, 50}[r.Intn(3)]
	lots := func() int {
		q := (1 + r.Intn(8)) * m.lot
		if r.Intn(3) == 0 {
			q += r.Intn(5) - 2
		}
		if r.Intn(10) == 0 {
			q = 1 + r.Intn(3)
		}
		if q < 1 {
			q = 1
		}
		return q
	}
	left := lots()
	most := left
	lowest := []int{1, 1, 1, 0, -5}[r.Intn(5)]
	trades := []mTrade{{Action: first, Pair: 1, Price: lowest + r.Intn(maxPrice), Qty: left}}
	if r.Intn(3) == 0 {
		trades[0].Time = 2 + r.Intn(60) // later than trades that follow
	}
	open := true
	n := 1 + r.Intn(24)
	if m.lot <= 16 && r.Intn(15) == 0 {
		n = 25 + r.Intn(150)
	}
	adds := []int{2, 5, 8}[r.Intn(3)]
	for k := 0; k < n; k++ {
		t := mTrade{Action: first, Pair: 1, Price: lowest + r.Intn(maxPrice), Qty: lots()}
		if r.Intn(10) >= adds {
			t.Action = other(first)
			switch r.Intn(8) {
			case 0:
				t.Qty = left
			case 1:
				t.Qty = left + m.tol
			case 2:
				t.Qty = left + m.tol + 1
			case 3:
				t.Qty = left - 1
			case 4:
				t.Qty = left + 1 + r.Intn(10*m.lot)
			case 5:
				t.Qty = 1 + r.Intn(left)
			default:
				if t.Qty > left {
					t.Qty = 1 + r.Intn(left)
				}
			}
			if t.Qty < 1 {
				t.Qty = 1
			}
			if rest := left - t.Qty; rest > 0 && rest < most/100000 {
				t.Qty = left // such a rest drowns in the rounding of what was there
			}
		}
		if r.Intn(25) == 0 {
			t.Qty = 0
		}
		if r.Intn(12) == 0 {
			t.Pair = 2 + r.Intn(len(mPairs)-2)
		}
		if r.Intn(15) == 0 {
			t.Time = 1 // not in order of time
		}
		trades = append(trades, t)
		if !open || t.Pair != 1 {
			continue
		}
		if t.Action == first {
			left += t.Qty
			if left > most {
				most = left
			}
		} else if t.Qty < left {
			left -= t.Qty
		} else if t.Qty <= left+m.tol {
			open = false
			if r.Intn(2) == 0 {
				break
			}
		}
	}
	return trades
}

// ----------------------------------------------------------------- ledger

type ledgerOp struct {
	Op  string `json:"op"`
	K   int    `json:"k"`
	J   int    `json:"j"`
	N   int    `json:"n"`
	How string `json:"how"`
}

// coarse are the scales whose units are larger than the slack of a close.
var coarse = func() (out []money) {
	for _, m := range moneys {
		if m.tol == 0 && m.qu > 0.0005 && m.qu < 1e5 {
			out = append(out, m)
		}
	}
	return
}()

// oddIDs stand for the first trades of some histories.
var oddIDs = []string{"", " ", "0", "trade, with: signs", "T1", "t-1"}

func runLedger(e *env, m money, slots int, ops []ledgerOp, odd bool, ids func() int, r *rand.Rand) {
	dress(r)
	anotherPair(r)
	pos := make([]*market.Position, slots)
	for k := range pos {
		pos[k] = &market.Position{}
	}
	types := make([]string, slots)
	qty := m.lot
	first := true
	lists := func() [][]int {
		out := make([][]int, slots)
		for k, p := range pos {
			out[k] = []int{}
			for _, id := range p.Trades {
				n, ok := idBack[id]
				if !ok {
					n = off
				}
				for k, x := range oddIDs {
					if id == x {
						n = 1 + k
					}
				}
				out[k] = append(out[k], n)
			}
		}
		return out
	}
	clock := 1
	mk := func(id int, action string, pair, qty int) *market.Trade {
		clock++
		t := m.trade(mTrade{Action: action, Pair: pair, Price: 1 + id%5, Qty: qty, Time: clock, ID: id})
		if odd && id <= len(oddIDs) {
			t.ID = oddIDs[id-1]
		}
		return t
	}
	apply := func(k int, t *market.Trade, id int) bool {
		var err error
		if !e.call("lists", func() { err = pos[k].Modify(t) }) {
			return false
		}
		e.emit(rec{"op": "lists", "first": first, "kind": "trade", "k": k + 1, "j": 1, "id": id, "err": code(err), "lists": lists()})
		return true
	}
	for _, o := range ops {
		k, j := o.K-1, o.J-1
		switch o.Op {
		case "open":
			types[k] = []string{"buy", "sell"}[(o.K+len(ops)+clock)%2]
			id := ids()
			if !e.call("lists", func() { pos[k] = market.NewPosition(mk(id, types[k], 1, qty)) }) {
				return
			}
			note(pos[k], m, r)
			e.emit(rec{"op": "lists", "first": first, "kind": "open", "k": k + 1, "j": 1, "id": id, "err": "", "lists": lists()})
			first = false
			for n := 1; n < o.N; n++ {
				id := ids()
				if !apply(k, mk(id, types[k], 1, qty), id) {
					return
				}
			}
		case "add", "sub", "over", "rest", "slack", "pair", "odd":
			id := ids()
			action, q, pair := types[k], qty, 1
			switch o.Op {
			case "sub":
				action = other(action)
			case "over":
				action, q = other(action), 1000*qty+5000
			case "pair":
				pair = 3
			}
			t := mk(id, action, pair, q)
			switch o.Op {
			case "rest": // all there is
				t.Action, t.Quantity = market.ActionType(other(action)), pos[k].Quantity
			case "slack": // a little more than there is
				t.Action, t.Quantity = market.ActionType(other(action)), pos[k].Quantity+0.00005
			}
			if !apply(k, t, id) {
				return
			}
		case "copy":
			var err error
			if !e.call("lists", func() {
				switch o.How {
				case "update":
					err = pos[j].Update(pos[k])
				case "assign":
					*pos[j] = *pos[k]
				case "json":
					var b []byte
					if b, err = json.Marshal(pos[k]); err == nil {
						pos[j] = &market.Position{}
						err = json.Unmarshal(b, pos[j])
					}
				}
			}) {
				return
			}
			if err != nil {
				fatal("copy failed", err) // judged by C15 and C16
			}
			types[j] = types[k]
			e.emit(rec{"op": "lists", "first": first, "kind": "copy", "k": k + 1, "j": j + 1, "id": 0, "err": "", "lists": lists()})
		}
	}
}

func driveLedger(e *env) {
	e.behaviours(func(id int, raw []byte) {
		var ops []ledgerOp
		decode(raw, &ops)
		m := coarse[(id/e.every+int(e.seed))%len(coarse)]
		next := 0
		runLedger(e, m, 2, ops, id%3 == 0, func() int { next++; return next }, e.rng())
	})
	e.randoms(func(id int, r *rand.Rand) {
		slots := 2 + r.Intn(3)
		live := map[int]bool{1: true}
		m := coarse[r.Intn(len(coarse))]
		ops := []ledgerOp{{Op: "open", K: 1, N: 1 + r.Intn(9)}}
		n := 5 + r.Intn(40)
		if r.Intn(60) == 0 { // a long life
			n, ops[0].N = 20+r.Intn(100), 20+r.Intn(400)
		}
		for ; n > 0; n-- {
			o := ledgerOp{Op: []string{"add", "add", "add", "sub", "over", "copy", "copy", "open", "pair", "add", "sub", "copy", "rest", "slack", "open"}[r.Intn(15)], K: 1 + r.Intn(slots), N: 1 + r.Intn(6)}
			if o.Op == "open" && r.Intn(3) != 0 {
				o.Op = "add"
			}
			if o.Op != "open" && !live[o.K] {
				continue
			}
			if o.Op == "copy" {
				o.J = 1 + r.Intn(slots)
				o.How = []string{"update", "update", "assign", "json"}[r.Intn(4)]
				if o.J == o.K {
					continue
				}
				live[o.J] = true
			}
			live[o.K] = true
			ops = append(ops, o)
		}
		next, repeat := 0, r.Intn(3) == 0
		runLedger(e, m, slots, ops, r.Intn(4) == 0, func() int {
			if repeat && next > 0 && r.Intn(4) == 0 {
				return 1 + r.Intn(next) // the exchange reports an identifier again
			}
			next++
			return next
		}, r)
	})
}

// ------------------------------------------------------------------ trade

type tradeCase struct {
	Action string `json:"action"`
	Price  int    `json:"price"`
	Qty    int    `json:"qty"`
	Cost   int    `json:"cost"`
}

var tradeIDs = []string{"", "a", "0b54", "trade-identifier-of-some-length-000000000001", "ünïcode", "  ", "a_b/c:d.e,f", " x", "%s", "1", "\"q\"", strings.Repeat("0123456789", 12)}

func runTrade(e *env, m money, c tradeCase, k int) {
	dress(e.rng())
	id, at, typ, pair := tradeIDs[k%len(tradeIDs)], mTime(k%500), mOrderTypes[k%len(mOrderTypes)], mPairs[k%len(mPairs)]
	price, qty, cost := float64(c.Price)*m.pu, float64(c.Qty)*m.qu, float64(c.Cost)*m.pu*m.qu
	var t *market.Trade
	if !e.call("trade", func() {
		t = market.NewTrade(id, at, market.ActionType(c.Action), typ, pair, price, qty, cost)
	}) {
		return
	}
	tol := m.pu*m.qu*1e-6 + 1e-12*(math.Abs(cost)+math.Abs(price*qty))
	e.emit(rec{"op": "trade", "action": c.Action, "price": c.Price, "qty": c.Qty, "cost": c.Cost,
		"fee": grid(t.Fee, m.pu*m.qu, tol), "gotPrice": grid(t.Price, m.pu, 0), "gotQty": grid(t.Quantity, m.qu, 0), "gotCost": grid(t.Cost, m.pu*m.qu, 1e-12*math.Abs(cost)),
		"given": dump([]interface{}{id, at, market.ActionType(c.Action), typ, pair}),
		"got":   dump([]interface{}{t.ID, t.ExecutionTime, t.Action, t.OrderType, t.Pair})})
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

func driveTrade(e *env) {
	e.behaviours(func(id int, raw []byte) {
		var c tradeCase
		decode(raw, &c)
		runTrade(e, moneys[(id+int(e.seed))%len(moneys)], c, id)
	})
	e.randoms(func(id int, r *rand.Rand) {
		c := tradeCase{Action: []string{"buy", "sell"}[r.Intn(2)], Price: r.Intn(20000), Qty: r.Intn(20000)}
		switch r.Intn(10) {
		case 0:
			c.Price = -c.Price
		case 1:
			c.Qty = -c.Qty
		}
		if r.Intn(4) == 0 {
			c.Price, c.Qty = r.Intn(50), r.Intn(50)
		}
		switch r.Intn(4) {
		case 0:
			c.Cost = c.Price * c.Qty
		case 1:
			c.Cost = c.Price*c.Qty + r.Intn(200) - 100
		case 2:
			c.Cost = r.Intn(400000000)
		default:
			c.Cost = c.Price*c.Qty + r.Intn(abs(c.Price*c.Qty)/100+1)
		}
		runTrade(e, moneys[r.Intn(len(moneys))], c, r.Intn(3000))
	})
}
