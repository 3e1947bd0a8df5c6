From 6927bbd5d72dbb812e0a87786a744dfe96c9ec75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:22 +0000
Subject: [PATCH 01/29] fix: return the error of an oversized trade from
 Position.Modify

The errors of the add and substract steps were dropped, so a rejected trade looked accepted.
---
 market/position.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/market/position.go b/market/position.go
index 1329f38..afd4999 100644
--- a/market/position.go
+++ b/market/position.go
@@ -130,13 +130,13 @@ func (p *Position) Modify(trade *Trade) error {
 	}
 
 	if p.Type == LongPosition && trade.Action == BuyAction {
-		p.add(trade)
+		return p.add(trade)
 	} else if p.Type == LongPosition && trade.Action == SellAction {
-		p.substract(trade)
+		return p.substract(trade)
 	} else if p.Type == ShortPosition && trade.Action == BuyAction {
-		p.substract(trade)
+		return p.substract(trade)
 	} else if p.Type == ShortPosition && trade.Action == SellAction {
-		p.add(trade)
+		return p.add(trade)
 	}
 
 	return nil
-- 
2.43.0


From b9da904889b3976328302ebd9818439211e98d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:22 +0000
Subject: [PATCH 02/29] fix: reject trades with an unknown action in
 Position.Modify

They were silently ignored and reported as applied.
---
 market/position.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/market/position.go b/market/position.go
index afd4999..e4a64e5 100644
--- a/market/position.go
+++ b/market/position.go
@@ -139,7 +139,7 @@ func (p *Position) Modify(trade *Trade) error {
 		return p.add(trade)
 	}
 
-	return nil
+	return ez.New(op, ez.EINVALID, "A trade must either buy or sell", nil)
 }
 
 // add increments the position size and averages the price
-- 
2.43.0


From b5769fc4de1a22de21078b73ff377a59bd9143d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:22 +0000
Subject: [PATCH 03/29] fix: reject trades against a closed position

A trade applied after the close changed the size and the profit of a position that was already settled.
---
 market/position.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/market/position.go b/market/position.go
index e4a64e5..8aa865e 100644
--- a/market/position.go
+++ b/market/position.go
@@ -129,6 +129,10 @@ func (p *Position) Modify(trade *Trade) error {
 		return ez.New(op, ez.EINVALID, "A trade must have same pair as the position", nil)
 	}
 
+	if !p.Open {
+		return ez.New(op, ez.ECONFLICT, "A closed position can't be modified", nil)
+	}
+
 	if p.Type == LongPosition && trade.Action == BuyAction {
 		return p.add(trade)
 	} else if p.Type == LongPosition && trade.Action == SellAction {
-- 
2.43.0


From ae53693dd6102f4782daa7b5c69f46a70a56d34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:22 +0000
Subject: [PATCH 04/29] fix: do not panic printing a position with a short ID

---
 market/position.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/market/position.go b/market/position.go
index 8aa865e..2abc087 100644
--- a/market/position.go
+++ b/market/position.go
@@ -97,8 +97,13 @@ func (p *Position) Update(i interface{}) error {
 }
 
 func (p *Position) String() string {
+	id := p.ID
+	if len(id) > 8 {
+		id = id[0:8]
+	}
+
 	return fmt.Sprintf("ID: %s Type: %s Pair: %s Open: %t OpenPrice: %.2f ClosePrice: %.2f Quantity: %.4f Profit: %.2f OpenTime: %s CloseTime: %s # Trades: %d\n",
-		p.ID[0:8],
+		id,
 		p.Type,
 		p.Pair.String(),
 		p.Open,
-- 
2.43.0


From 58a42756550747837db28b5651a11f0cc23257ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:22 +0000
Subject: [PATCH 05/29] fix: do not panic printing a balance without an asset

---
 market/balances.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/market/balances.go b/market/balances.go
index d455028..31b8751 100644
--- a/market/balances.go
+++ b/market/balances.go
@@ -31,5 +31,10 @@ type Balance struct {
 }
 
 func (b *Balance) String() string {
-	return fmt.Sprintf("Asset: %s, Amount: %f\n", b.Asset.String(), b.Amount)
+	var assetStr string
+	if b.Asset != nil {
+		assetStr = b.Asset.String()
+	}
+
+	return fmt.Sprintf("Asset: %s, Amount: %f\n", assetStr, b.Amount)
 }
-- 
2.43.0


From 833b9e947f52edaa8ecb2c93f58ff4fbb6ff6618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:22 +0000
Subject: [PATCH 06/29] fix: map DYDXETH to the DYDX/ETH pair

The entry named OOKI as its base asset.
---
 market/pair_mappings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/market/pair_mappings.go b/market/pair_mappings.go
index ca0bb4e..7efdb00 100644
--- a/market/pair_mappings.go
+++ b/market/pair_mappings.go
@@ -1886,7 +1886,7 @@ var PairMappings = map[string]Pair{
 	"GLMRBUSD":      {Base: Asset{Symbol: "GLMR"}, Quote: Asset{Symbol: "BUSD"}},
 	"GLMRUSDT":      {Base: Asset{Symbol: "GLMR"}, Quote: Asset{Symbol: "USDT"}},
 	"ATOMBIDR":      {Base: Asset{Symbol: "ATOM"}, Quote: Asset{Symbol: "BIDR"}},
-	"DYDXETH":       {Base: Asset{Symbol: "OOKI"}, Quote: Asset{Symbol: "ETH"}},
+	"DYDXETH":       {Base: Asset{Symbol: "DYDX"}, Quote: Asset{Symbol: "ETH"}},
 	"ROSEETH":       {Base: Asset{Symbol: "ROSE"}, Quote: Asset{Symbol: "ETH"}},
 	"UMABUSD":       {Base: Asset{Symbol: "UMA"}, Quote: Asset{Symbol: "BUSD"}},
 	"UNIETH":        {Base: Asset{Symbol: "UNI"}, Quote: Asset{Symbol: "ETH"}},
-- 
2.43.0


From aebab3fc3e8b2a07a0419c8ada8945d80e98b98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:22 +0000
Subject: [PATCH 07/29] fix: reject a nil model in Update instead of panicking

---
 market/order.go        | 2 +-
 market/position.go     | 2 +-
 market/trade.go        | 2 +-
 strategy/annotation.go | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/market/order.go b/market/order.go
index 85d4b54..143d785 100644
--- a/market/order.go
+++ b/market/order.go
@@ -85,7 +85,7 @@ func (o *Order) Update(i interface{}) error {
 	const op = "Order.Update"
 
 	order, ok := i.(*Order)
-	if !ok {
+	if !ok || order == nil {
 		return ez.New(op, ez.EINVALID, "Provided interface is not of type Order", nil)
 	}
 
diff --git a/market/position.go b/market/position.go
index 2abc087..972cc34 100644
--- a/market/position.go
+++ b/market/position.go
@@ -87,7 +87,7 @@ func (p *Position) Update(i interface{}) error {
 	const op = "Position.Update"
 
 	position, ok := i.(*Position)
-	if !ok {
+	if !ok || position == nil {
 		return ez.New(op, ez.EINVALID, "Provided interface is not of type Position", nil)
 	}
 
diff --git a/market/trade.go b/market/trade.go
index b841dfc..7ab8dd0 100644
--- a/market/trade.go
+++ b/market/trade.go
@@ -63,7 +63,7 @@ func (t *Trade) Update(i interface{}) error {
 	const op = "Trade.Update"
 
 	trade, ok := i.(*Trade)
-	if !ok {
+	if !ok || trade == nil {
 		return ez.New(op, ez.EINVALID, "Provided interface is not of type Trade", nil)
 	}
 
diff --git a/strategy/annotation.go b/strategy/annotation.go
index 75a7f77..33bed90 100644
--- a/strategy/annotation.go
+++ b/strategy/annotation.go
@@ -57,7 +57,7 @@ func (a *Annotation) Update(i interface{}) error {
 	const op = "Annotation.Update"
 
 	model, ok := i.(*Annotation)
-	if !ok {
+	if !ok || model == nil {
 		return ez.New(op, ez.EINVALID, "Provided interface is not of type Annotation", nil)
 	}
 
-- 
2.43.0


From 4cacb609bdcd49cc902cf94e0c8fabed19b4583b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:49 +0000
Subject: [PATCH 08/29] fix: reject a zero price when deriving the quantity of
 an order request

The division by zero produced an infinite quantity.
---
 market/order_request.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/market/order_request.go b/market/order_request.go
index 54a8060..526c4c6 100644
--- a/market/order_request.go
+++ b/market/order_request.go
@@ -73,6 +73,13 @@ func (o *OrderRequest) CalculateFields(currentPrice float64) (*OrderRequest, err
 		return nil, ez.New(op, ez.EINVALID, "Either total or quantity must be zero", nil)
 	}
 
+	// Without a price the quantity can't be derived from the total
+	if o.Quantity == 0 {
+		if (o.Type == MarketOrder && currentPrice == 0) || (o.Type != MarketOrder && o.Price == 0) {
+			return nil, ez.New(op, ez.EINVALID, "Price can't be zero", nil)
+		}
+	}
+
 	copy := *o
 
 	// MarketOrder
-- 
2.43.0


From 2a7b47f11d0d8efe10e349a93f903f646c0d6e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:49 +0000
Subject: [PATCH 09/29] fix: evict exactly the crossed rows when an order book
 update crosses the other side

The first row that did not cross was dropped as well, and a last row at the update price was kept, which left the book locked.
---
 market/orderbook.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/market/orderbook.go b/market/orderbook.go
index e204517..d5b0793 100644
--- a/market/orderbook.go
+++ b/market/orderbook.go
@@ -96,17 +96,17 @@ func (ob *OrderBook) removeInvalid(side string, price float64) int {
 			return 0
 		}
 		for i := range ob.Asks {
-			if ob.Asks[i].Price < price {
+			if ob.Asks[i].Price <= price {
 				continue
 			} else {
-				startIndex := int(math.Min(float64(i+1), float64(len(ob.Asks)-1)))
-				rowsRemoved = len(ob.Asks) - i
-				ob.Asks = ob.Asks[startIndex:]
+				rowsRemoved = i
+				ob.Asks = ob.Asks[i:]
 				found = true
 				break
 			}
 		}
 		if !found {
+			rowsRemoved = len(ob.Asks)
 			ob.Asks = []OrderBookRow{}
 		}
 		return rowsRemoved
@@ -115,17 +115,17 @@ func (ob *OrderBook) removeInvalid(side string, price float64) int {
 			return 0
 		}
 		for i := range ob.Bids {
-			if ob.Bids[i].Price > price {
+			if ob.Bids[i].Price >= price {
 				continue
 			} else {
-				startIndex := int(math.Min(float64(i+1), float64(len(ob.Bids)-1)))
-				rowsRemoved = len(ob.Bids) - i
-				ob.Bids = ob.Bids[startIndex:]
+				rowsRemoved = i
+				ob.Bids = ob.Bids[i:]
 				found = true
 				break
 			}
 		}
 		if !found {
+			rowsRemoved = len(ob.Bids)
 			ob.Bids = []OrderBookRow{}
 		}
 		return rowsRemoved
-- 
2.43.0


From cf31c394ff61d83edb2bbd1dcd342c8fc183743b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:49 +0000
Subject: [PATCH 10/29] fix: keep the accumulated volumes of an order book
 current after an update

They were only computed on construction, so every update left stale or zero totals.
---
 market/orderbook.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/market/orderbook.go b/market/orderbook.go
index d5b0793..1525029 100644
--- a/market/orderbook.go
+++ b/market/orderbook.go
@@ -45,6 +45,10 @@ func (ob *OrderBook) sort() {
 	ob.Asks = ob.Asks[:int(askDepth)]
 	ob.Bids = ob.Bids[:int(bidDepth)]
 
+	ob.accumulate()
+}
+
+func (ob *OrderBook) accumulate() {
 	for i := range ob.Asks {
 		if i == 0 {
 			ob.Asks[i].AccumVolume = ob.Asks[i].Volume
@@ -70,6 +74,8 @@ func (ob *OrderBook) limit() {
 	if len(ob.Bids) > ob.MaxDepth {
 		ob.Bids = ob.Bids[:ob.MaxDepth]
 	}
+
+	ob.accumulate()
 }
 
 func (ob *OrderBook) String() string {
-- 
2.43.0


From 87b86f2887909a18d69d7923a5a83ebb6f3c060f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:49 +0000
Subject: [PATCH 11/29] fix: treat a negative order book depth as zero instead
 of panicking

---
 market/orderbook.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/market/orderbook.go b/market/orderbook.go
index 1525029..b80db0b 100644
--- a/market/orderbook.go
+++ b/market/orderbook.go
@@ -18,6 +18,10 @@ type OrderBook struct {
 
 func NewOrderBook(asks, bids []OrderBookRow, maxDepth int) OrderBook {
 
+	if maxDepth < 0 {
+		maxDepth = 0
+	}
+
 	ob := OrderBook{
 		Time:     time.Now().Unix(),
 		Asks:     asks,
-- 
2.43.0


From d6d9db37790ad699a57bf49c7225c1dcba99be74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:49 +0000
Subject: [PATCH 12/29] fix: do not panic in GetDepth when a side of the order
 book is empty

---
 market/orderbook.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/market/orderbook.go b/market/orderbook.go
index b80db0b..1063208 100644
--- a/market/orderbook.go
+++ b/market/orderbook.go
@@ -271,9 +271,14 @@ func (ob *OrderBook) GetDepth(price float64) (float64, error) {
 		return 0, ez.New(op, ez.EINVALID, "Price can't be equal or below zero", nil)
 	}
 
-	firstAsk, lastAsk := ob.Asks[0], ob.Asks[len(ob.Asks)-1]
-	firstBid, lastBid := ob.Bids[0], ob.Bids[len(ob.Bids)-1]
-	if firstAsk.Price <= price && price <= lastAsk.Price {
+	var firstAsk, lastAsk, firstBid, lastBid OrderBookRow
+	if len(ob.Asks) > 0 {
+		firstAsk, lastAsk = ob.Asks[0], ob.Asks[len(ob.Asks)-1]
+	}
+	if len(ob.Bids) > 0 {
+		firstBid, lastBid = ob.Bids[0], ob.Bids[len(ob.Bids)-1]
+	}
+	if len(ob.Asks) > 0 && firstAsk.Price <= price && price <= lastAsk.Price {
 		// price is in asks interval
 		for k := range ob.Asks {
 			if ob.Asks[k].Price > price {
@@ -282,7 +287,7 @@ func (ob *OrderBook) GetDepth(price float64) (float64, error) {
 			}
 		}
 		return lastAsk.Price, nil
-	} else if lastBid.Price <= price && price <= firstBid.Price {
+	} else if len(ob.Bids) > 0 && lastBid.Price <= price && price <= firstBid.Price {
 		// price is in bids interval
 		for k := range ob.Bids {
 			if ob.Bids[k].Price < price {
-- 
2.43.0


From bf7da52fea889e230a339a830cfbd01ec4899c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:49 +0000
Subject: [PATCH 13/29] fix: return the accumulated volume from GetDepth

It is documented as the accumulated volume but returned the price of the row.
---
 market/orderbook.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/market/orderbook.go b/market/orderbook.go
index 1063208..1b8033b 100644
--- a/market/orderbook.go
+++ b/market/orderbook.go
@@ -283,19 +283,19 @@ func (ob *OrderBook) GetDepth(price float64) (float64, error) {
 		for k := range ob.Asks {
 			if ob.Asks[k].Price > price {
 				index := math.Max(0, float64(k-1))
-				return ob.Asks[int(index)].Price, nil
+				return ob.Asks[int(index)].AccumVolume, nil
 			}
 		}
-		return lastAsk.Price, nil
+		return lastAsk.AccumVolume, nil
 	} else if len(ob.Bids) > 0 && lastBid.Price <= price && price <= firstBid.Price {
 		// price is in bids interval
 		for k := range ob.Bids {
 			if ob.Bids[k].Price < price {
 				index := math.Max(0, float64(k-1))
-				return ob.Bids[int(index)].Price, nil
+				return ob.Bids[int(index)].AccumVolume, nil
 			}
 		}
-		return lastBid.Price, nil
+		return lastBid.AccumVolume, nil
 	}
 	return 0, ez.New(op, ez.ENOTFOUND, "No depth for the selected price", nil)
 }
-- 
2.43.0


From 517eeabb957bc68fd801be3c840b5462959ec2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:43:49 +0000
Subject: [PATCH 14/29] fix: count a side that overlaps entirely in
 CalculateOverlap

When no row ended the overlap the whole side was left out of the result.
---
 market/orderbook.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/market/orderbook.go b/market/orderbook.go
index 1b8033b..248d12b 100644
--- a/market/orderbook.go
+++ b/market/orderbook.go
@@ -302,7 +302,7 @@ func (ob *OrderBook) GetDepth(price float64) (float64, error) {
 
 func overlapCalculation(obA, obB OrderBook) (float64, error) {
 	var obAAccumVolume, obBAccumVolume float64
-	var obAIndex, obBIndex int
+	obAIndex, obBIndex := len(obA.Asks), len(obB.Bids)
 	for i := range obA.Asks {
 		if obA.Asks[i].Price > obB.Bids[0].Price {
 			obAIndex = i
-- 
2.43.0


From 010b3ac1537427e96520bbd6bcf168d54e016ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:24 +0000
Subject: [PATCH 15/29] fix: do not panic in CalculateOverlap when a side of a
 book is empty

---
 market/orderbook.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/market/orderbook.go b/market/orderbook.go
index 248d12b..238b916 100644
--- a/market/orderbook.go
+++ b/market/orderbook.go
@@ -343,13 +343,15 @@ func overlapCalculation(obA, obB OrderBook) (float64, error) {
 func CalculateOverlap(obA, obB OrderBook) (float64, error) {
 	op := "OrderBook.CalculateOverlap"
 	// First determine if overlap exists
-	if !(obA.Asks[0].Price < obB.Bids[0].Price || obA.Bids[0].Price > obB.Asks[0].Price) {
+	asksOverlap := len(obA.Asks) > 0 && len(obB.Bids) > 0 && obA.Asks[0].Price < obB.Bids[0].Price
+	bidsOverlap := len(obA.Bids) > 0 && len(obB.Asks) > 0 && obA.Bids[0].Price > obB.Asks[0].Price
+	if !(asksOverlap || bidsOverlap) {
 		return -1, ez.New(op, ez.ENOTFOUND, "No overlap", nil)
 	}
-	if obA.Asks[0].Price < obB.Bids[0].Price {
+	if asksOverlap {
 		return overlapCalculation(obA, obB)
 	}
-	if obA.Bids[0].Price > obB.Asks[0].Price {
+	if bidsOverlap {
 		return overlapCalculation(obB, obA)
 	}
 	return 0, nil
-- 
2.43.0


From e73d1fb8cdf7ba15746390ce1d8939b86a723a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:24 +0000
Subject: [PATCH 16/29] fix: do not panic in ModifyInterval without candles or
 with a degenerate interval

An empty input, an interval of zero, and candles less than a minute apart all crashed.
---
 market/candle.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/market/candle.go b/market/candle.go
index 37c4d6c..7130dc6 100644
--- a/market/candle.go
+++ b/market/candle.go
@@ -36,11 +36,15 @@ func (p *Candle) String() string {
 func ModifyInterval(candles []Candle, minuteInterval int) ([]Candle, error) {
 	op := "market.ModifyInterval"
 
-	// If we only have a candle, return the candle, there is nothing to do
-	if len(candles) == 1 {
+	// If we have at most a candle, return the candles, there is nothing to do
+	if len(candles) <= 1 {
 		return candles, nil
 	}
 
+	if minuteInterval <= 0 {
+		return nil, ez.New(op, ez.EINVALID, "The interval must be of at least a minute", nil)
+	}
+
 	// Check that if we are requesting a minute interval that there is actually
 	// a minute interval between the candles
 	minuteCandleDelta := (candles[1].Time - candles[0].Time) / 60
@@ -48,6 +52,10 @@ func ModifyInterval(candles []Candle, minuteInterval int) ([]Candle, error) {
 		return nil, ez.New(op, ez.ECONFLICT, "No 1 minute interval exists", nil)
 	}
 
+	if minuteCandleDelta == 0 {
+		return nil, ez.New(op, ez.ECONFLICT, "The delta between candles is less than a minute", nil)
+	}
+
 	if int64(minuteInterval)%minuteCandleDelta != 0 {
 		return nil, ez.New(op, ez.ECONFLICT, fmt.Sprintf(`The retrieved candles cannot be modified to the %d minutes timeframe, the delta between candles is %d minutes`, minuteInterval, minuteCandleDelta), nil)
 	}
-- 
2.43.0


From 702e3a882682123155a62d059829d718a515c438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:24 +0000
Subject: [PATCH 17/29] fix: align resampled candles to UTC

The alignment used the local timezone of the host, so the same candles resampled differently where the offset is not a whole hour.
---
 market/candle.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/market/candle.go b/market/candle.go
index 7130dc6..0388c4b 100644
--- a/market/candle.go
+++ b/market/candle.go
@@ -126,7 +126,7 @@ func findFirstIndex(candles []Candle, minuteInterval int) (int, error) {
 			return -1, ez.New(op, ez.EINVALID, "Could not find the initial candle", nil)
 		}
 
-		currentMinute := time.Unix(candles[i].Time, 0).Minute()
+		currentMinute := time.Unix(candles[i].Time, 0).UTC().Minute()
 		if currentMinute%modMinutes == 0 || currentMinute == 0 {
 			break
 		}
-- 
2.43.0


From a3e3adecc29b4f4f6af6b103a367f536696eb0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:24 +0000
Subject: [PATCH 18/29] fix: start a new candle when the input has a gap at the
 interval boundary

A missing boundary candle made ModifyInterval merge two or more intervals into one candle.
---
 market/candle.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/market/candle.go b/market/candle.go
index 0388c4b..8738b3a 100644
--- a/market/candle.go
+++ b/market/candle.go
@@ -68,8 +68,9 @@ func ModifyInterval(candles []Candle, minuteInterval int) ([]Candle, error) {
 	var modifiedCandles []Candle
 	firstCandleIndex := start
 	pivot := candles[start].Time
+	intervalSeconds := int64(minuteInterval) * 60
 	for k, v := range candles[firstCandleIndex+1:] {
-		if int(math.Abs(float64((v.Time-pivot)/60)))%minuteInterval == 0 {
+		if (v.Time-pivot)/intervalSeconds != (candles[start].Time-pivot)/intervalSeconds {
 			compressedCandle, err := compressCandle(candles, start, k+firstCandleIndex+1)
 			if err != nil {
 				return nil, err
-- 
2.43.0


From ca43cdbfae1c432a768efd65cf3a55926caca1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:24 +0000
Subject: [PATCH 19/29] fix: return zero from GetMinInterval when there is no
 pair of candles

The conversion of the unset minimum returned an arbitrary number.
---
 market/candle.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/market/candle.go b/market/candle.go
index 8738b3a..4b6c3a9 100644
--- a/market/candle.go
+++ b/market/candle.go
@@ -94,6 +94,10 @@ func ModifyInterval(candles []Candle, minuteInterval int) ([]Candle, error) {
 // GetMinInterval - Returns the minimun period interval in minutes from an array of
 // candles
 func GetMinInterval(candles []Candle) int {
+	if len(candles) < 2 {
+		return 0
+	}
+
 	minDiff := math.MaxFloat64
 	for k := range candles {
 		if k == 0 {
-- 
2.43.0


From cf45b9c0a053612fd227f226a0343afcf26a3122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:24 +0000
Subject: [PATCH 20/29] fix: report write errors from SaveCandlesToFile

A full disk left a truncated file behind and no error.
---
 market/candle_load.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/market/candle_load.go b/market/candle_load.go
index 445740a..6ea8266 100644
--- a/market/candle_load.go
+++ b/market/candle_load.go
@@ -22,7 +22,15 @@ func SaveCandlesToFile(candles *[]Candle, filepath string) error {
 	candleList := *candles
 
 	for _, candle := range candleList {
-		fmt.Fprintln(f, candle) // print values to f, one per line
+		_, err = fmt.Fprintln(f, candle) // print values to f, one per line
+		if err != nil {
+			return ez.Wrap(op, err)
+		}
+	}
+
+	err = f.Close()
+	if err != nil {
+		return ez.Wrap(op, err)
 	}
 
 	return nil
-- 
2.43.0


From 25ad5b9192328aaf91c17497cb5ae6550dccf1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:24 +0000
Subject: [PATCH 21/29] fix: close the file in LoadCandlesFromFile

---
 market/candle_load.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/market/candle_load.go b/market/candle_load.go
index 6ea8266..ca6fb51 100644
--- a/market/candle_load.go
+++ b/market/candle_load.go
@@ -47,6 +47,8 @@ func LoadCandlesFromFile(filepath string) ([]Candle, error) {
 		return nil, ez.Wrap(op, err)
 	}
 
+	defer f.Close()
+
 	scanner := bufio.NewScanner(f)
 	for scanner.Scan() {
 		text := scanner.Text()
-- 
2.43.0


From 032d3d9a9cd171570274de3d058003c987e324a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:24 +0000
Subject: [PATCH 22/29] fix: report read errors from LoadCandlesFromFile

A failed read returned the candles before it as if they were the whole file.
---
 market/candle_load.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/market/candle_load.go b/market/candle_load.go
index ca6fb51..5c21c3b 100644
--- a/market/candle_load.go
+++ b/market/candle_load.go
@@ -100,5 +100,10 @@ func LoadCandlesFromFile(filepath string) ([]Candle, error) {
 		candles = append(candles, candle)
 	}
 
+	err = scanner.Err()
+	if err != nil {
+		return nil, ez.Wrap(op, err)
+	}
+
 	return candles, nil
 }
-- 
2.43.0


From c16c6a8adea75fa6c37b6a2ddb043dc3ab7fbdcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:24 +0000
Subject: [PATCH 23/29] fix: return an error for malformed lines in
 LoadCandlesFromFile instead of panicking

---
 market/candle_load.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/market/candle_load.go b/market/candle_load.go
index 5c21c3b..dfd3fa9 100644
--- a/market/candle_load.go
+++ b/market/candle_load.go
@@ -54,8 +54,14 @@ func LoadCandlesFromFile(filepath string) ([]Candle, error) {
 		text := scanner.Text()
 
 		// Parse each line
+		if len(text) < 2 {
+			return nil, ez.New(op, ez.EINVALID, "Line does not contain a candle", nil)
+		}
 		line := text[1 : len(text)-1]
 		lineArr := strings.Split(line, " ")
+		if len(lineArr) < 6 {
+			return nil, ez.New(op, ez.EINVALID, "Line does not contain a candle", nil)
+		}
 
 		// Convert from string to datatypes
 		time, err := strconv.ParseInt(lineArr[0], 10, 32)
-- 
2.43.0


From 3bf95286f34a25485bb006d433c22ea1d21d9a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:24 +0000
Subject: [PATCH 24/29] fix: load candles with timestamps beyond 32 bits

They are saved, but failed to load back.
---
 market/candle_load.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/market/candle_load.go b/market/candle_load.go
index dfd3fa9..94be6ed 100644
--- a/market/candle_load.go
+++ b/market/candle_load.go
@@ -64,7 +64,7 @@ func LoadCandlesFromFile(filepath string) ([]Candle, error) {
 		}
 
 		// Convert from string to datatypes
-		time, err := strconv.ParseInt(lineArr[0], 10, 32)
+		time, err := strconv.ParseInt(lineArr[0], 10, 64)
 		if err != nil {
 			return nil, ez.Wrap(op, err)
 		}
-- 
2.43.0


From c35963e343c1e17a7a362dd54b719902db00bf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:24 +0000
Subject: [PATCH 25/29] fix: require two confirming candles for a fractal at
 the end of the series

Candles equal to the middle one do not confirm it, yet running out of candles counted as confirmation.
---
 indicators/williams_fractals.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/indicators/williams_fractals.go b/indicators/williams_fractals.go
index 48a5fd7..caf2b45 100644
--- a/indicators/williams_fractals.go
+++ b/indicators/williams_fractals.go
@@ -113,5 +113,9 @@ func findFractal(candles []market.Candle, start int, fType FractalType) (foundFr
 
 	}
 
+	if rightCandleCount < 2 {
+		return foundFractal, ez.New(op, ez.EINVALID, "No fractal, as there are less than two following candles that confirm it", nil)
+	}
+
 	return foundFractal, nil
 }
-- 
2.43.0


From e66756adbc7b24245bc942c66e6c25579cad46dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:24 +0000
Subject: [PATCH 26/29] fix: do not read past the candles in RSI

The last window was one candle too long, and periods below one or above the number of candles crashed.
---
 indicators/rsi.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/indicators/rsi.go b/indicators/rsi.go
index cd4cb13..17ef1ad 100644
--- a/indicators/rsi.go
+++ b/indicators/rsi.go
@@ -27,6 +27,10 @@ func RSI(candles []market.Candle, period int) ([]float32, error) {
 		return nil, ez.New(op, ez.EINVALID, "Candle array missing", nil)
 	} else if len(candles) < 14 {
 		return nil, ez.New(op, ez.EINVALID, "Cannot calculate RSI with less than 14 candles", nil)
+	} else if period <= 0 {
+		return nil, ez.New(op, ez.EINVALID, "Period can't be less than 1", nil)
+	} else if len(candles) <= period {
+		return nil, ez.New(op, ez.EINVALID, "Period argument must be smaller than the length of candles", nil)
 	}
 
 	var rsiArray []float32
@@ -35,7 +39,7 @@ func RSI(candles []market.Candle, period int) ([]float32, error) {
 	j := period - 1
 
 	for {
-		if j == len(candles) {
+		if j == len(candles)-1 {
 			break
 		}
 
-- 
2.43.0


From 929ba93d78fed07125c0971f6f4871ea133239ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:24 +0000
Subject: [PATCH 27/29] fix: return a neutral RSI for a flat window

Without price changes the result was not a number.
---
 indicators/rsi.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/indicators/rsi.go b/indicators/rsi.go
index 17ef1ad..2ccf528 100644
--- a/indicators/rsi.go
+++ b/indicators/rsi.go
@@ -15,6 +15,12 @@ func calculateRSI(candles []market.Candle) float32 {
 			avgDownward += candles[i-1].Close - candles[i].Close
 		}
 	}
+	if avgDownward == 0 {
+		if avgUpward == 0 {
+			return 50
+		}
+		return 100
+	}
 	rs := avgUpward / avgDownward
 	//fmt.Println("info:", avgUpward/14, avgDownward/14, rs)
 	return float32(100 - 100/(1+rs))
-- 
2.43.0


From 3425b9cb39690c64c330971d67939f78c8e3b00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:44:24 +0000
Subject: [PATCH 28/29] fix: include the candle after the seed in
 ExponentialMovingAverage

The first value was the plain average of the first period candles, so the candle it belongs to never entered the average.
---
 indicators/ma.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/indicators/ma.go b/indicators/ma.go
index 9ebfe0c..7b3c041 100644
--- a/indicators/ma.go
+++ b/indicators/ma.go
@@ -62,12 +62,12 @@ func ExponentialMovingAverage(candles []market.Candle, period int) ([]float64, e
 			continue
 		}
 
-		if len(emaArray) == 0 {
-			emaArray = append(emaArray, average(candles[:period]))
-		} else {
-			ema := (candles[i].Close * p) + (emaArray[len(emaArray)-1] * (1 - p))
-			emaArray = append(emaArray, ema)
+		prevEMA := average(candles[:period])
+		if len(emaArray) > 0 {
+			prevEMA = emaArray[len(emaArray)-1]
 		}
+		ema := (candles[i].Close * p) + (prevEMA * (1 - p))
+		emaArray = append(emaArray, ema)
 
 	}
 
-- 
2.43.0


From 7afb18d1343d9bc5dd4ea257493da64e10549442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:47:15 +0000
Subject: [PATCH 29/29] fix: build order books from copies of the given rows

The constructor sorted the caller's slices in place and kept them, so a
book's updates changed rows the caller still holds.
---
 market/orderbook.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/market/orderbook.go b/market/orderbook.go
index 238b916..b19a91e 100644
--- a/market/orderbook.go
+++ b/market/orderbook.go
@@ -24,8 +24,8 @@ func NewOrderBook(asks, bids []OrderBookRow, maxDepth int) OrderBook {
 
 	ob := OrderBook{
 		Time:     time.Now().Unix(),
-		Asks:     asks,
-		Bids:     bids,
+		Asks:     append(asks[:0:0], asks...),
+		Bids:     append(bids[:0:0], bids...),
 		MaxDepth: maxDepth,
 	}
 
-- 
2.43.0

