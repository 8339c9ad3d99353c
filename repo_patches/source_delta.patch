From 11f3671271ad761ce16d18c9f824bd21e84be40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:38:39 +0000
Subject: [PATCH 01/27] fix: remove exactly the crossed levels when an order
 book update arrives

An update that crossed the opposite side also dropped the first level that
was still valid, and it kept a locked level when that level was the last one.
Only levels at or through the price of the update are removed now.
---
 market/orderbook.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/market/orderbook.go b/market/orderbook.go
index e204517..1ed746d 100644
--- a/market/orderbook.go
+++ b/market/orderbook.go
@@ -99,14 +99,18 @@ func (ob *OrderBook) removeInvalid(side string, price float64) int {
 			if ob.Asks[i].Price < price {
 				continue
 			} else {
-				startIndex := int(math.Min(float64(i+1), float64(len(ob.Asks)-1)))
-				rowsRemoved = len(ob.Asks) - i
+				startIndex := i
+				if ob.Asks[i].Price == price {
+					startIndex = i + 1
+				}
+				rowsRemoved = startIndex
 				ob.Asks = ob.Asks[startIndex:]
 				found = true
 				break
 			}
 		}
 		if !found {
+			rowsRemoved = len(ob.Asks)
 			ob.Asks = []OrderBookRow{}
 		}
 		return rowsRemoved
@@ -118,14 +122,18 @@ func (ob *OrderBook) removeInvalid(side string, price float64) int {
 			if ob.Bids[i].Price > price {
 				continue
 			} else {
-				startIndex := int(math.Min(float64(i+1), float64(len(ob.Bids)-1)))
-				rowsRemoved = len(ob.Bids) - i
+				startIndex := i
+				if ob.Bids[i].Price == price {
+					startIndex = i + 1
+				}
+				rowsRemoved = startIndex
 				ob.Bids = ob.Bids[startIndex:]
 				found = true
 				break
 			}
 		}
 		if !found {
+			rowsRemoved = len(ob.Bids)
 			ob.Bids = []OrderBookRow{}
 		}
 		return rowsRemoved
-- 
2.43.0


From 1f89a83a9d1ed0debc200d818c1d5eb10c35577e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:15 +0000
Subject: [PATCH 02/27] fix: keep accumulated volumes current after an order
 book update

ApplyUpdate left the accumulated volume of the changed row at zero and that
of the rows behind it at its old value.
---
 market/orderbook.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/market/orderbook.go b/market/orderbook.go
index 1ed746d..d49786d 100644
--- a/market/orderbook.go
+++ b/market/orderbook.go
@@ -45,6 +45,11 @@ func (ob *OrderBook) sort() {
 	ob.Asks = ob.Asks[:int(askDepth)]
 	ob.Bids = ob.Bids[:int(bidDepth)]
 
+	ob.accumulate()
+}
+
+// accumulate sets the accumulated volume of every row, from the best price outwards
+func (ob *OrderBook) accumulate() {
 	for i := range ob.Asks {
 		if i == 0 {
 			ob.Asks[i].AccumVolume = ob.Asks[i].Volume
@@ -70,6 +75,8 @@ func (ob *OrderBook) limit() {
 	if len(ob.Bids) > ob.MaxDepth {
 		ob.Bids = ob.Bids[:ob.MaxDepth]
 	}
+
+	ob.accumulate()
 }
 
 func (ob *OrderBook) String() string {
-- 
2.43.0


From 5662fb100a9a1a1eac1996200eb7264a48a1da8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:16 +0000
Subject: [PATCH 03/27] fix: do not panic in GetDepth when one side of the
 order book is empty

The zero bounds of an empty side contain no positive price, so such a side
now simply has no depth.
---
 market/orderbook.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/market/orderbook.go b/market/orderbook.go
index d49786d..24c8bc4 100644
--- a/market/orderbook.go
+++ b/market/orderbook.go
@@ -276,8 +276,13 @@ func (ob *OrderBook) GetDepth(price float64) (float64, error) {
 		return 0, ez.New(op, ez.EINVALID, "Price can't be equal or below zero", nil)
 	}
 
-	firstAsk, lastAsk := ob.Asks[0], ob.Asks[len(ob.Asks)-1]
-	firstBid, lastBid := ob.Bids[0], ob.Bids[len(ob.Bids)-1]
+	var firstAsk, lastAsk, firstBid, lastBid OrderBookRow
+	if len(ob.Asks) > 0 {
+		firstAsk, lastAsk = ob.Asks[0], ob.Asks[len(ob.Asks)-1]
+	}
+	if len(ob.Bids) > 0 {
+		firstBid, lastBid = ob.Bids[0], ob.Bids[len(ob.Bids)-1]
+	}
 	if firstAsk.Price <= price && price <= lastAsk.Price {
 		// price is in asks interval
 		for k := range ob.Asks {
-- 
2.43.0


From 36883ca25a0a8fb3e7e3918738bc824c905cc638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:16 +0000
Subject: [PATCH 04/27] fix: return the accumulated volume from GetDepth

GetDepth is documented to return the accumulated volume up to a price, but it
returned the price of the row.
---
 market/orderbook.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/market/orderbook.go b/market/orderbook.go
index 24c8bc4..d45743a 100644
--- a/market/orderbook.go
+++ b/market/orderbook.go
@@ -288,19 +288,19 @@ func (ob *OrderBook) GetDepth(price float64) (float64, error) {
 		for k := range ob.Asks {
 			if ob.Asks[k].Price > price {
 				index := math.Max(0, float64(k-1))
-				return ob.Asks[int(index)].Price, nil
+				return ob.Asks[int(index)].AccumVolume, nil
 			}
 		}
-		return lastAsk.Price, nil
+		return lastAsk.AccumVolume, nil
 	} else if lastBid.Price <= price && price <= firstBid.Price {
 		// price is in bids interval
 		for k := range ob.Bids {
 			if ob.Bids[k].Price < price {
 				index := math.Max(0, float64(k-1))
-				return ob.Bids[int(index)].Price, nil
+				return ob.Bids[int(index)].AccumVolume, nil
 			}
 		}
-		return lastBid.Price, nil
+		return lastBid.AccumVolume, nil
 	}
 	return 0, ez.New(op, ez.ENOTFOUND, "No depth for the selected price", nil)
 }
-- 
2.43.0


From 668f587dac9d54fc7f1c828bd25fdef29a966f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:17 +0000
Subject: [PATCH 05/27] fix: count a side that overlaps entirely in
 CalculateOverlap

When every row of a side was inside the overlap, the index of its end stayed
at zero and the side was treated as if none of its rows overlapped.
---
 market/orderbook.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/market/orderbook.go b/market/orderbook.go
index d45743a..82268e0 100644
--- a/market/orderbook.go
+++ b/market/orderbook.go
@@ -307,7 +307,7 @@ func (ob *OrderBook) GetDepth(price float64) (float64, error) {
 
 func overlapCalculation(obA, obB OrderBook) (float64, error) {
 	var obAAccumVolume, obBAccumVolume float64
-	var obAIndex, obBIndex int
+	obAIndex, obBIndex := len(obA.Asks), len(obB.Bids)
 	for i := range obA.Asks {
 		if obA.Asks[i].Price > obB.Bids[0].Price {
 			obAIndex = i
-- 
2.43.0


From 2cfc370c2b1784e90c8b49929e53e821f5235c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:18 +0000
Subject: [PATCH 06/27] fix: do not panic in CalculateOverlap when a book has
 an empty side

An empty side overlaps with nothing, so it is reported as no overlap.
---
 market/orderbook.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/market/orderbook.go b/market/orderbook.go
index 82268e0..864a23c 100644
--- a/market/orderbook.go
+++ b/market/orderbook.go
@@ -348,14 +348,11 @@ func overlapCalculation(obA, obB OrderBook) (float64, error) {
 func CalculateOverlap(obA, obB OrderBook) (float64, error) {
 	op := "OrderBook.CalculateOverlap"
 	// First determine if overlap exists
-	if !(obA.Asks[0].Price < obB.Bids[0].Price || obA.Bids[0].Price > obB.Asks[0].Price) {
-		return -1, ez.New(op, ez.ENOTFOUND, "No overlap", nil)
-	}
-	if obA.Asks[0].Price < obB.Bids[0].Price {
+	if len(obA.Asks) > 0 && len(obB.Bids) > 0 && obA.Asks[0].Price < obB.Bids[0].Price {
 		return overlapCalculation(obA, obB)
 	}
-	if obA.Bids[0].Price > obB.Asks[0].Price {
+	if len(obA.Bids) > 0 && len(obB.Asks) > 0 && obA.Bids[0].Price > obB.Asks[0].Price {
 		return overlapCalculation(obB, obA)
 	}
-	return 0, nil
+	return -1, ez.New(op, ez.ENOTFOUND, "No overlap", nil)
 }
-- 
2.43.0


From 95bf40ab4a7bb137aafe26e2c4591fb42817c98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:19 +0000
Subject: [PATCH 07/27] fix: copy the rows given to NewOrderBook

The book sorted the slices of the caller in place and later updates wrote
through them, so two books built from the same snapshot corrupted each other.
---
 market/orderbook.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/market/orderbook.go b/market/orderbook.go
index 864a23c..d718b91 100644
--- a/market/orderbook.go
+++ b/market/orderbook.go
@@ -20,8 +20,8 @@ func NewOrderBook(asks, bids []OrderBookRow, maxDepth int) OrderBook {
 
 	ob := OrderBook{
 		Time:     time.Now().Unix(),
-		Asks:     asks,
-		Bids:     bids,
+		Asks:     append(asks[:0:0], asks...),
+		Bids:     append(bids[:0:0], bids...),
 		MaxDepth: maxDepth,
 	}
 
-- 
2.43.0


From df8898847a2845c96ccce462f74bb9f9a809fd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:20 +0000
Subject: [PATCH 08/27] fix: report a rejected trade from Position.Modify

The error for a trade larger than the position was discarded, so the caller
was told that the trade had been applied.
---
 market/position.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/market/position.go b/market/position.go
index 1329f38..afd4999 100644
--- a/market/position.go
+++ b/market/position.go
@@ -130,13 +130,13 @@ func (p *Position) Modify(trade *Trade) error {
 	}
 
 	if p.Type == LongPosition && trade.Action == BuyAction {
-		p.add(trade)
+		return p.add(trade)
 	} else if p.Type == LongPosition && trade.Action == SellAction {
-		p.substract(trade)
+		return p.substract(trade)
 	} else if p.Type == ShortPosition && trade.Action == BuyAction {
-		p.substract(trade)
+		return p.substract(trade)
 	} else if p.Type == ShortPosition && trade.Action == SellAction {
-		p.add(trade)
+		return p.add(trade)
 	}
 
 	return nil
-- 
2.43.0


From 94925b28557db7805dd7302c5a2844deb0603bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:21 +0000
Subject: [PATCH 09/27] fix: reject trades on a closed position

A trade on a closed position closed it again and overwrote its realized
profit, or grew its quantity while it stayed closed.
---
 market/position.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/market/position.go b/market/position.go
index afd4999..bb79687 100644
--- a/market/position.go
+++ b/market/position.go
@@ -129,6 +129,10 @@ func (p *Position) Modify(trade *Trade) error {
 		return ez.New(op, ez.EINVALID, "A trade must have same pair as the position", nil)
 	}
 
+	if !p.Open {
+		return ez.New(op, ez.EINVALID, "A closed position can't be modified", nil)
+	}
+
 	if p.Type == LongPosition && trade.Action == BuyAction {
 		return p.add(trade)
 	} else if p.Type == LongPosition && trade.Action == SellAction {
-- 
2.43.0


From 086b00ae67e60f9fe8c6e5e64c782471924b45cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:21 +0000
Subject: [PATCH 10/27] fix: do not share trade history between copies of a
 position

Appending a trade could write into spare capacity shared with a position set
through Update, so the two overwrote each other's trades.
---
 market/position.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/market/position.go b/market/position.go
index bb79687..4d6ae6f 100644
--- a/market/position.go
+++ b/market/position.go
@@ -153,7 +153,7 @@ func (p *Position) add(trade *Trade) error {
 
 	p.OpenPrice = (p.OpenPrice * p.Quantity / totalQuantity) + (trade.Price * trade.Quantity / totalQuantity)
 	p.Quantity = totalQuantity
-	p.Trades = append(p.Trades, trade.ID)
+	p.Trades = append(p.Trades[:len(p.Trades):len(p.Trades)], trade.ID)
 
 	return nil
 }
@@ -184,7 +184,7 @@ func (p *Position) substract(trade *Trade) error {
 		p.Quantity = totalQuantity
 	}
 
-	p.Trades = append(p.Trades, trade.ID)
+	p.Trades = append(p.Trades[:len(p.Trades):len(p.Trades)], trade.ID)
 
 	return nil
 }
-- 
2.43.0


From 9947af66bdd0f1b3d61b8c0637a03697e0f0ab28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:22 +0000
Subject: [PATCH 11/27] fix: do not panic when printing a position or a balance

A position with an ID shorter than eight characters and a balance without an
asset panicked in String.
---
 market/balances.go | 7 ++++++-
 market/position.go | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/market/balances.go b/market/balances.go
index d455028..31b8751 100644
--- a/market/balances.go
+++ b/market/balances.go
@@ -31,5 +31,10 @@ type Balance struct {
 }
 
 func (b *Balance) String() string {
-	return fmt.Sprintf("Asset: %s, Amount: %f\n", b.Asset.String(), b.Amount)
+	var assetStr string
+	if b.Asset != nil {
+		assetStr = b.Asset.String()
+	}
+
+	return fmt.Sprintf("Asset: %s, Amount: %f\n", assetStr, b.Amount)
 }
diff --git a/market/position.go b/market/position.go
index 4d6ae6f..c123a6d 100644
--- a/market/position.go
+++ b/market/position.go
@@ -97,8 +97,13 @@ func (p *Position) Update(i interface{}) error {
 }
 
 func (p *Position) String() string {
+	id := p.ID
+	if len(id) > 8 {
+		id = id[0:8]
+	}
+
 	return fmt.Sprintf("ID: %s Type: %s Pair: %s Open: %t OpenPrice: %.2f ClosePrice: %.2f Quantity: %.4f Profit: %.2f OpenTime: %s CloseTime: %s # Trades: %d\n",
-		p.ID[0:8],
+		id,
 		p.Type,
 		p.Pair.String(),
 		p.Open,
-- 
2.43.0


From c0f64cfd031bb660fbf79c18012ec96f8d908e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:23 +0000
Subject: [PATCH 12/27] fix: calculate close position orders with the current
 price

A close position order executes at the current price like a market order, but
its fields were calculated from the price of the request, which is usually zero.
---
 market/order_request.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/market/order_request.go b/market/order_request.go
index 54a8060..88be191 100644
--- a/market/order_request.go
+++ b/market/order_request.go
@@ -75,8 +75,8 @@ func (o *OrderRequest) CalculateFields(currentPrice float64) (*OrderRequest, err
 
 	copy := *o
 
-	// MarketOrder
-	if o.Type == MarketOrder {
+	// MarketOrder and ClosePosition execute at the current price
+	if o.Type == MarketOrder || o.Type == ClosePosition {
 		if o.Quantity != 0 {
 			copy.Total = o.Quantity * currentPrice
 		} else {
-- 
2.43.0


From 5bd8eac53fd9d330ec5b1a498d2d734b882c843a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:24 +0000
Subject: [PATCH 13/27] fix: reject an order total that can't be converted to a
 quantity

Without a price the quantity became infinite and no error was returned.
---
 market/order_request.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/market/order_request.go b/market/order_request.go
index 88be191..dcf790d 100644
--- a/market/order_request.go
+++ b/market/order_request.go
@@ -80,12 +80,18 @@ func (o *OrderRequest) CalculateFields(currentPrice float64) (*OrderRequest, err
 		if o.Quantity != 0 {
 			copy.Total = o.Quantity * currentPrice
 		} else {
+			if currentPrice == 0 {
+				return nil, ez.New(op, ez.EINVALID, "Can't calculate the quantity without a price", nil)
+			}
 			copy.Quantity = o.Total / currentPrice
 		}
 	} else {
 		if o.Quantity != 0 {
 			copy.Total = o.Quantity * o.Price
 		} else {
+			if o.Price == 0 {
+				return nil, ez.New(op, ez.EINVALID, "Can't calculate the quantity without a price", nil)
+			}
 			copy.Quantity = o.Total / o.Price
 		}
 	}
-- 
2.43.0


From 81887c17e2a5cad9d68138b58dd058d7d5439345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:39:25 +0000
Subject: [PATCH 14/27] fix: do not panic in ModifyInterval on degenerate input

An empty series, an interval of zero and candles less than a minute apart all
panicked.
---
 market/candle.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/market/candle.go b/market/candle.go
index 37c4d6c..8743dfb 100644
--- a/market/candle.go
+++ b/market/candle.go
@@ -37,7 +37,7 @@ func ModifyInterval(candles []Candle, minuteInterval int) ([]Candle, error) {
 	op := "market.ModifyInterval"
 
 	// If we only have a candle, return the candle, there is nothing to do
-	if len(candles) == 1 {
+	if len(candles) <= 1 {
 		return candles, nil
 	}
 
@@ -48,6 +48,10 @@ func ModifyInterval(candles []Candle, minuteInterval int) ([]Candle, error) {
 		return nil, ez.New(op, ez.ECONFLICT, "No 1 minute interval exists", nil)
 	}
 
+	if minuteInterval <= 0 || minuteCandleDelta == 0 {
+		return nil, ez.New(op, ez.EINVALID, "The interval and the delta between candles must be at least 1 minute", nil)
+	}
+
 	if int64(minuteInterval)%minuteCandleDelta != 0 {
 		return nil, ez.New(op, ez.ECONFLICT, fmt.Sprintf(`The retrieved candles cannot be modified to the %d minutes timeframe, the delta between candles is %d minutes`, minuteInterval, minuteCandleDelta), nil)
 	}
-- 
2.43.0


From 0d42b45ecc7cb2beff8abd897294c6739026b5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:02 +0000
Subject: [PATCH 15/27] fix: keep candles of different intervals apart when the
 series has gaps

A new candle was only started at a candle exactly on an interval boundary. When
that candle was missing, the rest of its interval was merged into the previous
candle, which then covered more than the requested interval.
---
 market/candle.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/market/candle.go b/market/candle.go
index 8743dfb..3d2cb95 100644
--- a/market/candle.go
+++ b/market/candle.go
@@ -64,14 +64,20 @@ func ModifyInterval(candles []Candle, minuteInterval int) ([]Candle, error) {
 	var modifiedCandles []Candle
 	firstCandleIndex := start
 	pivot := candles[start].Time
+	bucketTime := pivot
 	for k, v := range candles[firstCandleIndex+1:] {
-		if int(math.Abs(float64((v.Time-pivot)/60)))%minuteInterval == 0 {
+		// A candle opens a new bucket when it is not in the same interval as the previous
+		// one, the candle at the start of the interval could be missing
+		vTime := v.Time - (v.Time-pivot)%(int64(minuteInterval)*60)
+		if vTime != bucketTime {
 			compressedCandle, err := compressCandle(candles, start, k+firstCandleIndex+1)
 			if err != nil {
 				return nil, err
 			}
+			compressedCandle.Time = bucketTime
 			modifiedCandles = append(modifiedCandles, compressedCandle)
 			start = k + firstCandleIndex + 1
+			bucketTime = vTime
 		}
 	}
 
@@ -81,6 +87,7 @@ func ModifyInterval(candles []Candle, minuteInterval int) ([]Candle, error) {
 		return nil, err
 	}
 
+	compressedCandle.Time = bucketTime
 	modifiedCandles = append(modifiedCandles, compressedCandle)
 
 	return modifiedCandles, nil
-- 
2.43.0


From a3e3d7c8a4e1a9cfa0056bd6bcf2e082c451b8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:03 +0000
Subject: [PATCH 16/27] fix: return zero from GetMinInterval when there is no
 interval

With fewer than two candles the result was an overflowed conversion.
---
 market/candle.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/market/candle.go b/market/candle.go
index 3d2cb95..86e259b 100644
--- a/market/candle.go
+++ b/market/candle.go
@@ -96,6 +96,10 @@ func ModifyInterval(candles []Candle, minuteInterval int) ([]Candle, error) {
 // GetMinInterval - Returns the minimun period interval in minutes from an array of
 // candles
 func GetMinInterval(candles []Candle) int {
+	if len(candles) < 2 {
+		return 0
+	}
+
 	minDiff := math.MaxFloat64
 	for k := range candles {
 		if k == 0 {
-- 
2.43.0


From fd8687d8cefcd3a4d3708a4b072bf87144e316f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:03 +0000
Subject: [PATCH 17/27] fix: report a failed write from SaveCandlesToFile

A full disk left a truncated file behind and no error was returned.
---
 market/candle_load.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/market/candle_load.go b/market/candle_load.go
index 445740a..83e4ff8 100644
--- a/market/candle_load.go
+++ b/market/candle_load.go
@@ -22,7 +22,10 @@ func SaveCandlesToFile(candles *[]Candle, filepath string) error {
 	candleList := *candles
 
 	for _, candle := range candleList {
-		fmt.Fprintln(f, candle) // print values to f, one per line
+		_, err = fmt.Fprintln(f, candle) // print values to f, one per line
+		if err != nil {
+			return ez.Wrap(op, err)
+		}
 	}
 
 	return nil
-- 
2.43.0


From 881d38817fa208b92c1e5dec20b92b2bad1d0c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:04 +0000
Subject: [PATCH 18/27] fix: load candles with a time after 2038

Candle times are 64 bit and are saved as such, but loading rejected those that
do not fit in 32 bits.
---
 market/candle_load.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/market/candle_load.go b/market/candle_load.go
index 83e4ff8..8229311 100644
--- a/market/candle_load.go
+++ b/market/candle_load.go
@@ -51,7 +51,7 @@ func LoadCandlesFromFile(filepath string) ([]Candle, error) {
 		lineArr := strings.Split(line, " ")
 
 		// Convert from string to datatypes
-		time, err := strconv.ParseInt(lineArr[0], 10, 32)
+		time, err := strconv.ParseInt(lineArr[0], 10, 64)
 		if err != nil {
 			return nil, ez.Wrap(op, err)
 		}
-- 
2.43.0


From 3387c57551f298658f39db14655326c31f32adf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:05 +0000
Subject: [PATCH 19/27] fix: return an error for a malformed candle file

A short or blank line panicked, and a line the scanner could not read ended the
load early without an error.
---
 market/candle_load.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/market/candle_load.go b/market/candle_load.go
index 8229311..1394e43 100644
--- a/market/candle_load.go
+++ b/market/candle_load.go
@@ -47,8 +47,14 @@ func LoadCandlesFromFile(filepath string) ([]Candle, error) {
 		text := scanner.Text()
 
 		// Parse each line
+		if len(text) < 2 {
+			return nil, ez.New(op, ez.EINVALID, "Candle line is malformed", nil)
+		}
 		line := text[1 : len(text)-1]
 		lineArr := strings.Split(line, " ")
+		if len(lineArr) != 6 {
+			return nil, ez.New(op, ez.EINVALID, "Candle line is malformed", nil)
+		}
 
 		// Convert from string to datatypes
 		time, err := strconv.ParseInt(lineArr[0], 10, 64)
@@ -92,6 +98,9 @@ func LoadCandlesFromFile(filepath string) ([]Candle, error) {
 
 		candles = append(candles, candle)
 	}
+	if err := scanner.Err(); err != nil {
+		return nil, ez.Wrap(op, err)
+	}
 
 	return candles, nil
 }
-- 
2.43.0


From 839679eb346d43ba89a84dee39dfff89008361c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:06 +0000
Subject: [PATCH 20/27] fix: map DYDXETH to the DYDX/ETH pair

The entry pointed to OOKI/ETH, whose symbol is not DYDXETH.
---
 market/pair_mappings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/market/pair_mappings.go b/market/pair_mappings.go
index ca0bb4e..7efdb00 100644
--- a/market/pair_mappings.go
+++ b/market/pair_mappings.go
@@ -1886,7 +1886,7 @@ var PairMappings = map[string]Pair{
 	"GLMRBUSD":      {Base: Asset{Symbol: "GLMR"}, Quote: Asset{Symbol: "BUSD"}},
 	"GLMRUSDT":      {Base: Asset{Symbol: "GLMR"}, Quote: Asset{Symbol: "USDT"}},
 	"ATOMBIDR":      {Base: Asset{Symbol: "ATOM"}, Quote: Asset{Symbol: "BIDR"}},
-	"DYDXETH":       {Base: Asset{Symbol: "OOKI"}, Quote: Asset{Symbol: "ETH"}},
+	"DYDXETH":       {Base: Asset{Symbol: "DYDX"}, Quote: Asset{Symbol: "ETH"}},
 	"ROSEETH":       {Base: Asset{Symbol: "ROSE"}, Quote: Asset{Symbol: "ETH"}},
 	"UMABUSD":       {Base: Asset{Symbol: "UMA"}, Quote: Asset{Symbol: "BUSD"}},
 	"UNIETH":        {Base: Asset{Symbol: "UNI"}, Quote: Asset{Symbol: "ETH"}},
-- 
2.43.0


From bf8bcae7a715961a6a2b339fdc76f41d2d693a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:06 +0000
Subject: [PATCH 21/27] fix: do not read past the end of the candles in RSI

The last window ended one candle after the series, which panicked or used
whatever was in the spare capacity of the slice. A period that does not fit the
series is now an error.
---
 indicators/rsi.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/indicators/rsi.go b/indicators/rsi.go
index cd4cb13..980212b 100644
--- a/indicators/rsi.go
+++ b/indicators/rsi.go
@@ -27,6 +27,10 @@ func RSI(candles []market.Candle, period int) ([]float32, error) {
 		return nil, ez.New(op, ez.EINVALID, "Candle array missing", nil)
 	} else if len(candles) < 14 {
 		return nil, ez.New(op, ez.EINVALID, "Cannot calculate RSI with less than 14 candles", nil)
+	} else if len(candles) <= period {
+		return nil, ez.New(op, ez.EINVALID, "Period argument must be smaller than the length of candles", nil)
+	} else if period <= 0 {
+		return nil, ez.New(op, ez.EINVALID, "Period can't be less than 1", nil)
 	}
 
 	var rsiArray []float32
@@ -35,7 +39,7 @@ func RSI(candles []market.Candle, period int) ([]float32, error) {
 	j := period - 1
 
 	for {
-		if j == len(candles) {
+		if j == len(candles)-1 {
 			break
 		}
 
-- 
2.43.0


From fb4fa876e23d705017f864d2d5256efa7b122c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:07 +0000
Subject: [PATCH 22/27] fix: return a neutral RSI when the price does not
 change

A window without price changes divided zero by zero and returned NaN.
---
 indicators/rsi.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/indicators/rsi.go b/indicators/rsi.go
index 980212b..159c132 100644
--- a/indicators/rsi.go
+++ b/indicators/rsi.go
@@ -15,6 +15,10 @@ func calculateRSI(candles []market.Candle) float32 {
 			avgDownward += candles[i-1].Close - candles[i].Close
 		}
 	}
+	if avgUpward == 0 && avgDownward == 0 {
+		// Without any price change the market is neutral
+		return 50
+	}
 	rs := avgUpward / avgDownward
 	//fmt.Println("info:", avgUpward/14, avgDownward/14, rs)
 	return float32(100 - 100/(1+rs))
-- 
2.43.0


From e6a22f11867a30d869726043c0dd1af9f7b3c214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:07 +0000
Subject: [PATCH 23/27] fix: include the first candle after the seed in the
 exponential average

The seed was returned in place of the value for the candle that follows it, so
the close of that candle never took part in the average.
---
 indicators/ma.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/indicators/ma.go b/indicators/ma.go
index 9ebfe0c..59a5015 100644
--- a/indicators/ma.go
+++ b/indicators/ma.go
@@ -62,13 +62,16 @@ func ExponentialMovingAverage(candles []market.Candle, period int) ([]float64, e
 			continue
 		}
 
+		// The first value is seeded with the simple average of the period
+		prevEMA := 0.0
 		if len(emaArray) == 0 {
-			emaArray = append(emaArray, average(candles[:period]))
+			prevEMA = average(candles[:period])
 		} else {
-			ema := (candles[i].Close * p) + (emaArray[len(emaArray)-1] * (1 - p))
-			emaArray = append(emaArray, ema)
+			prevEMA = emaArray[len(emaArray)-1]
 		}
 
+		ema := (candles[i].Close * p) + (prevEMA * (1 - p))
+		emaArray = append(emaArray, ema)
 	}
 
 	return emaArray, nil
-- 
2.43.0


From 1b2fb0d703bfe7e06279eb77b1d972bbec4aeabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:07 +0000
Subject: [PATCH 24/27] fix: require two confirming candles for a fractal at
 the end of the series

Candles equal to the middle one do not confirm it, but when they reached the end
of the series the fractal was returned without any confirmation and disappeared
again when later candles broke it.
---
 indicators/williams_fractals.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/indicators/williams_fractals.go b/indicators/williams_fractals.go
index 48a5fd7..3151d8d 100644
--- a/indicators/williams_fractals.go
+++ b/indicators/williams_fractals.go
@@ -113,5 +113,9 @@ func findFractal(candles []market.Candle, start int, fType FractalType) (foundFr
 
 	}
 
+	if rightCandleCount < 2 {
+		return foundFractal, ez.New(op, ez.EINVALID, "Third candle doesn't have two confirming candles on the right", nil)
+	}
+
 	return foundFractal, nil
 }
-- 
2.43.0


From 06deffd00a3d46dea6d5903d7975cbe07d265d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:47 +0000
Subject: [PATCH 25/27] fix: close a position when only a rounding residue is
 left

Buying 0.1 and 0.2 and selling 0.3 left 5.5e-17 open, so the position never
closed and its open price became meaningless.
---
 market/position.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/market/position.go b/market/position.go
index c123a6d..8829223 100644
--- a/market/position.go
+++ b/market/position.go
@@ -171,8 +171,8 @@ func (p *Position) substract(trade *Trade) error {
 
 	if totalQuantity < 0 && totalQuantity < -0.0001 {
 		return ez.New(op, ez.EINVALID, "Trade volume is larger than the position size, this would not only close the position but open a new opossite one", nil)
-	} else if totalQuantity <= 0 {
-		// Close the trade
+	} else if totalQuantity <= p.Quantity*1e-9 {
+		// Close the trade, what is left is at most a floating point residue
 		p.ClosePrice = trade.Price
 		if p.Type == LongPosition {
 			p.Profit = (p.ClosePrice - p.OpenPrice) * p.Quantity
-- 
2.43.0


From 571d1d8b481b6bfc77c74062a913447888751600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:46 +0000
Subject: [PATCH 26/27] fix: reject candle lines without their braces

A line cut off by an interrupted write lost its last digit and was loaded as
a different candle.
---
 market/candle_load.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/market/candle_load.go b/market/candle_load.go
index 1394e43..71c1d82 100644
--- a/market/candle_load.go
+++ b/market/candle_load.go
@@ -47,7 +47,7 @@ func LoadCandlesFromFile(filepath string) ([]Candle, error) {
 		text := scanner.Text()
 
 		// Parse each line
-		if len(text) < 2 {
+		if len(text) < 2 || text[0] != '{' || text[len(text)-1] != '}' {
 			return nil, ez.New(op, ez.EINVALID, "Candle line is malformed", nil)
 		}
 		line := text[1 : len(text)-1]
-- 
2.43.0


From 101988d7658085536c97d376ad15b922fd2acf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:16:48 +0000
Subject: [PATCH 27/27] fix: resample candles on the same grid in every local
 time zone

The first candle of a resampled series was chosen by its minute in the
local time zone of the machine. In a zone that is not a whole number of
hours from UTC the result was shifted or candles were dropped. The minute
in UTC is used instead.
---
 market/candle.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/market/candle.go b/market/candle.go
index 86e259b..bb26b3a 100644
--- a/market/candle.go
+++ b/market/candle.go
@@ -133,7 +133,7 @@ func findFirstIndex(candles []Candle, minuteInterval int) (int, error) {
 			return -1, ez.New(op, ez.EINVALID, "Could not find the initial candle", nil)
 		}
 
-		currentMinute := time.Unix(candles[i].Time, 0).Minute()
+		currentMinute := time.Unix(candles[i].Time, 0).UTC().Minute()
 		if currentMinute%modMinutes == 0 || currentMinute == 0 {
 			break
 		}
-- 
2.43.0

