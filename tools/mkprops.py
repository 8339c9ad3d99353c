#!/usr/bin/env python3
"""Writes ../properties.jsonl (the list of properties lives here so that it can be edited comfortably)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

OB = "market/orderbook.go"
book_state = [("OrderBook.Asks / OrderBook.Bids", "levels of each side, best price first", OB)]
p("C01", "Order book levels stay sorted, unique and within the maximum depth",
  "For every snapshot with distinct prices and positive volumes on each side and every sequence of updates, after construction and after each update the asks are strictly ascending and the bids strictly descending by price. No price appears twice on a side, no row has volume zero, and neither side holds more rows than the maximum depth of the book.",
  ["histories", "inputs"], "every snapshot, every maximum depth >= 0 and every finite sequence of updates (any side string, any positive price, any non-negative volume)",
  "The order book tests apply at most two updates and only print the book; ordering is a property of every reachable book.",
  [OB], [("ordered insertion per side", OB + ":ApplyUpdate"), ("truncation to the maximum depth", OB + ":limit"), ("initial sort", OB + ":sort")], book_state, ["OrderBook.Asks", "OrderBook.Bids"])
p("C02", "The order book is never crossed, and only crossed levels are evicted",
  "Starting from a book whose bids are all below its asks, after every sequence of updates every bid price is still strictly below every ask price. An update with a positive volume removes from the opposite side exactly the levels at or through its price (bids at or above a new ask, asks at or below a new bid); every other level of the opposite side keeps its price and volume, and an update with volume zero removes nothing from the opposite side.",
  ["histories", "inputs"], "every uncrossed snapshot and every finite sequence of updates",
  "TestApplyUpdate applies one crossing update and asserts nothing about the resulting book.",
  [OB], [("removal of crossed levels", OB + ":removeInvalid"), ("call before insertion", OB + ":ApplyUpdate")], book_state, ["OrderBook.Asks", "OrderBook.Bids"])
p("C03", "An order book update changes exactly its own level on its own side",
  "An update with a positive volume sets the level at its price to that volume (replacing it or inserting it in price order), and an update with volume zero removes the level at its price if there is one; every other level of that side keeps its price and volume, except that levels worse than the best maximum-depth ones are dropped. An update whose side is neither ask nor bid returns an error and leaves the book unchanged; every other update succeeds. No update touches the book's time or maximum depth.",
  ["histories", "inputs"], "every reachable book and every update",
  "Insert-first, insert-middle, insert-last, replace, delete and delete-missing at every depth are separate branches on each side; the tests reach two of them without assertions.",
  [OB], [("ordered insertion / replacement / deletion", OB + ":ApplyUpdate"), ("deletion of one row", OB + ":removeElement"), ("truncation", OB + ":limit")], book_state, ["OrderBook.Asks", "OrderBook.Bids", "error of ApplyUpdate"])
p("C04", "Accumulated volume is the running sum from the best price",
  "After construction and after every update, the accumulated volume of each row equals the sum of the volumes of all rows of its side from the best price up to and including that row.",
  ["histories", "inputs"], "every snapshot and every finite sequence of updates",
  "No test reads the accumulated volume after an update.",
  [OB], [("accumulation", OB + ":accumulate"), ("called after sort and limit", OB + ":sort, limit")], book_state, ["OrderBookRow.AccumVolume"])
p("C05", "A new order book holds the best rows of its snapshot and owns them",
  "A book built from any rows in any order holds, on each side, exactly the best maximum-depth of those rows (lowest asks, highest bids; equal prices in the given order), sorted from the best price. The rows handed in are not modified, by construction or by later updates, and books built from the same rows do not influence each other.",
  ["inputs", "histories"], "every multiset and order of rows, every maximum depth >= 0, and every later history of updates on books sharing a snapshot",
  "TestNewOrderBook prints one book; permutations, duplicates, truncation and sharing are not exercised.",
  [OB], [("copy of the rows", OB + ":NewOrderBook"), ("stable sort and truncation", OB + ":sort")], book_state, ["NewOrderBook result", "argument slices"])
p("C06", "Depth query returns the volume available up to a price",
  "For a price inside the ask range the depth query returns the total volume of the asks at or below it, and for a price inside the bid range the total volume of the bids at or above it. A price that is zero or negative is an invalid-argument error, any other price outside both ranges is a not-found error; the query never panics (also on empty or one-sided books) and never changes the book.",
  ["histories", "inputs"], "every reachable uncrossed book and every price",
  "No test calls the depth query (TestOrderBookGetDepth tests the overlap).",
  [OB], [("range search", OB + ":GetDepth"), ("accumulated volumes kept current", OB + ":accumulate")], book_state, ["GetDepth result"])
p("C07", "Overlap of two books is symmetric, exact and detected precisely",
  "Two uncrossed books overlap exactly when the best ask of one is strictly below the best bid of the other; otherwise the calculation returns a not-found error, also when a side is empty. When they overlap the result is the same for both argument orders and equals the absolute difference between the cost of all asks at or below the other book's best bid and the value of the bids at or above the best ask, filled from the lowest such bid upwards until the volume of those asks is used. Neither book is changed.",
  ["inputs"], "every pair of uncrossed books of any size",
  "Four fixed pairs with one-sided assertions (result - 4.9 < 0.01 accepts any smaller value); complete overlap of a side is never tested.",
  [OB], [("overlap detection", OB + ":CalculateOverlap"), ("overlap value", OB + ":overlapCalculation")], book_state, ["CalculateOverlap result"])

PO = "market/position.go"
pos_state = [("Position", "type, open flag, quantity, open/close price, profit, trades", PO)]
p("C08", "Position accounting conserves cash over any history of trades",
  "While a position is open, open price times quantity equals the net cash put into it by all its trades (for a long: buys minus sells, for a short: sells minus buys) and the quantity equals the net traded quantity. When it closes, its profit equals the net cash of all its trades with the closing trade valued at the quantity that was still open.",
  ["histories", "inputs"], "every sequence of trades with positive quantities at any prices, long and short",
  "Tests check one history per direction; averaging, partial reductions and re-increases combine in unboundedly many ways.",
  [PO], [("averaging on increase", PO + ":add"), ("break-even adjustment on decrease and profit on close", PO + ":substract")], pos_state, ["Position.OpenPrice", "Position.Quantity", "Position.Profit"])
p("C09", "Position lifecycle: closes exactly at zero, never flips, closed is final",
  "A position is long iff its first trade is a buy, is never flipped, and stays open until a trade reduces its quantity to zero (a trade up to 0.0001 larger than the remaining quantity also closes it); it then records the price and time of that trade. A larger reducing trade, a trade on another pair and any trade on a closed position return an error and leave the position exactly as it was; every other buy or sell is accepted.",
  ["histories", "inputs"], "every sequence of trades including rejected ones",
  "Tests never apply an oversized trade, a foreign pair or a trade after closing, and the returned error is never looked at.",
  [PO], [("pair and open checks, dispatch", PO + ":Modify"), ("oversize rejection and close", PO + ":substract")], pos_state, ["Position.Open", "Position.Type", "ClosePrice", "CloseTime", "error of Modify"])
p("C10", "A position lists exactly its accepted trades, in order",
  "The trade list of a position contains the identifiers of exactly the trades it accepted, in the order of acceptance, and nothing of rejected ones. A position that was set from another one (by model update or by copying) and the original can both be modified further without influencing each other's trade list.",
  ["histories"], "every interleaving of trades on a position and on its copies",
  "Tests look at one position at a time; corruption of a shared list needs a copy at a length with spare capacity followed by trades on both sides.",
  [PO], [("append of the trade id", PO + ":add, substract"), ("model update", PO + ":Update")], pos_state, ["Position.Trades"])
p("C11", "Unrealized profit equals the profit of closing at that price",
  "For every open position and every price, the unrealized profit at that price equals the profit the position would realize if a trade at that price closed its whole quantity. Asking for it does not change the position.",
  ["histories", "inputs"], "every reachable open position, long and short, and every price, also zero and negative ones",
  "The method is not tested at all.",
  [PO], [("unrealized profit", PO + ":UnrealizedProfit"), ("profit on close", PO + ":substract")], pos_state, ["UnrealizedProfit", "Position.Profit"])
p("C12", "Trade cost, notional and fee always balance",
  "For every trade, a buy costs price times quantity plus the fee and a sell yields price times quantity minus the fee. Identifier, time, action, order type, pair, price, quantity and cost of the trade are those given.",
  ["inputs"], "every price, quantity, cost and both actions",
  "TestNewTrade checks a single buy; the sell branch is never asserted.",
  ["market/trade.go"], [("fee by action", "market/trade.go:NewTrade")], [], ["Trade.Fee", "Trade.Cost"])
OR = "market/order_request.go"
p("C13", "Order requests are validated and completed consistently",
  "Creating an order request fails exactly when the pair has no base symbol, the action or the type is missing, a limit order has no price, or quantity and total are both zero. Completing it for a current price fails exactly when both or neither of quantity and total are given or the quantity would need a division by a zero price; otherwise total = quantity x reference price, where the reference price is the current price for market and close-position orders and the request's own price for all others. The given one of the two and all other fields are kept, and the request itself is not modified.",
  ["inputs", "configurations"], "every order type, action, and combination of zero, positive and negative quantity, price, total and current price",
  "The test table has ten rows, two of five order types and no failing row.",
  [OR], [("validation", OR + ":NewOrderRequest"), ("completion", OR + ":CalculateFields")], [], ["results and errors"])
p("C14", "An order is open unless it is fulfilled or canceled",
  "An order reports itself open for every status except fulfilled and canceled, independently of all its other fields, and after any sequence of model updates the answer follows the current status.",
  ["histories", "inputs"], "every status and every sequence of updates of the order",
  "No test calls it.",
  ["market/order.go"], [("status test", "market/order.go:IsOpen"), ("model update", "market/order.go:Update")], [], ["Order.IsOpen"])
p("C15", "Model update replaces the whole model or nothing",
  "Updating an order, trade, position or annotation with another one of the same kind makes it equal to that one in every field, including the identifier it reports; updating it with anything else returns an error and leaves every field unchanged. Each kind always reports its own fixed table name (orders, trades, positions, annotations) with primary key id.",
  ["histories", "inputs"], "every kind of model, every kind of argument and every sequence of updates",
  "None of the storage methods is tested.",
  ["market/order.go", "market/trade.go", PO, "strategy/annotation.go"], [("type check then assignment", "Update methods"), ("schema", "GetSchema methods")], [], ["fields after Update", "GetID", "GetSchema"])
p("C16", "Models survive being stored as JSON and restored at any point",
  "Encoding any market or strategy model (candle, order book, order, trade, position, pair, asset, ticker, balances, annotation, strategy actions) to JSON and decoding it gives back the same value in every field. A position or order book that is stored and restored at any point of its history continues exactly as if it had not been.",
  ["crash_points", "histories", "inputs"], "every model value and every point of a history at which it is stored and restored",
  "No test encodes a model.",
  ["market/*.go", "strategy/*.go"], [("json tags", "struct definitions")], [], ["json.Marshal / json.Unmarshal"])

CA = "market/candle.go"
p("C17", "Each resampled candle is the exact summary of its interval",
  "Resampling a time-ordered series of minute-aligned candles to a multiple of its spacing skips the candles before the first one on the interval grid of its hour and then partitions all others into consecutive intervals counted from that candle. For every interval that contains candles, and only for those, there is one result in time order: its time is the start of the interval, open is the first open, close the last close, high the maximum high, low the minimum low, and volume the sum of volumes rounded to five decimals, also when the series has gaps.",
  ["inputs"], "every series, start time, spacing, gap pattern, length and interval",
  "Tests use one gapless day starting at midnight and four intervals.",
  [CA], [("alignment", CA + ":findFirstIndex"), ("partition", CA + ":ModifyInterval"), ("summary", CA + ":compressCandle")], [], ["ModifyInterval result"])
p("C18", "Resampling rejects impossible requests and never panics",
  "Resampling returns a series of fewer than two candles as it is. For longer series it returns an error and no candles exactly when the interval is not positive, the first two candles are less than a minute apart, the interval is not a multiple of their spacing in minutes, or no candle is on the interval grid of its hour; otherwise it succeeds, and it never panics or changes its input.",
  ["inputs"], "every time-ordered series, including empty ones and single candles, and every integer interval",
  "Tests cover three rejected requests; empty series, zero and negative intervals and coarser grids are not covered.",
  [CA], [("argument checks", CA + ":ModifyInterval"), ("alignment search", CA + ":findFirstIndex")], [], ["ModifyInterval error"])
p("C19", "Resampling in two steps equals resampling directly",
  "For a gapless series and two intervals that divide an hour, the smaller dividing the larger, resampling to the smaller and the result to the larger gives the same candles as resampling directly to the larger, whenever the intermediate series has at least two candles.",
  ["inputs"], "every gapless series, start minute, length and pair of nested intervals",
  "Only compared implicitly on one aligned day of data.",
  [CA], [("alignment and partition", CA + ":ModifyInterval, findFirstIndex")], [], ["ModifyInterval results"])
p("C20", "Minimum interval is the smallest gap between neighbouring candles",
  "For two or more candles the minimum interval is the smallest absolute time difference between neighbouring candles in whole minutes; for fewer it is zero.",
  ["inputs"], "every series of candles",
  "The function is not tested.",
  [CA], [("scan over neighbours", CA + ":GetMinInterval")], [], ["GetMinInterval result"])
CL = "market/candle_load.go"
p("C21", "Candles saved to a file are loaded back exactly",
  "Loading a file returns exactly the candles, in order and with every field bit-for-bit, that were last saved successfully to that path, whatever was in the file before and whatever the values are (any 64-bit time, any finite price or volume, any number of candles). Saving to or loading from one path does not affect another.",
  ["histories", "inputs"], "every sequence of saves and loads over several paths and every candle value",
  "Tests only load fixed files; saving is never exercised.",
  [CL], [("one line per candle, shortest exact float form", CL + ":SaveCandlesToFile"), ("parsing", CL + ":LoadCandlesFromFile")], [], ["files", "LoadCandlesFromFile result"])
p("C22", "Failed candle writes and malformed candle files are reported",
  "Saving returns success only if every candle was written: a path that cannot be created or a device that is full gives an error. Loading a missing file, or one that contains any line which is not a six-field candle, returns an error and no candles, and never panics.",
  ["fault_sequences", "inputs"], "every malformed line kind at every position of a file, missing paths, and write failures",
  "No test uses a malformed file or a failing write.",
  [CL], [("write errors", CL + ":SaveCandlesToFile"), ("field checks", CL + ":LoadCandlesFromFile")], [], ["returned errors"])

MA = "indicators/ma.go"
p("C23", "Simple moving average is the mean of every full window",
  "For n candles and a period between 1 and n, the simple moving average has exactly n - period + 1 values, and the k-th is the arithmetic mean of the closes of the candles k .. k + period - 1.",
  ["inputs"], "every series of closes and every valid period",
  "One data set with period 20 and a tolerance of 0.1.",
  [MA], [("window loop", MA + ":MovingAverage"), ("mean", MA + ":average")], [], ["MovingAverage result"])
p("C24", "Exponential moving average follows its recurrence from the simple-average seed",
  "For n candles and a period between 1 and n, the exponential moving average has exactly n - period values, one for each candle after the first period ones. Each equals close x w + previous x (1 - w) with w = 2/(period + 1), where the value preceding the first is the mean of the first period closes.",
  ["inputs"], "every series of closes and every valid period",
  "The only test of it fails at the pinned commit and asserts only an upper bound on a difference.",
  [MA], [("recurrence", MA + ":ExponentialMovingAverage")], [], ["ExponentialMovingAverage result"])
p("C25", "Smoothed moving average follows its recurrence from the simple-average seed",
  "For n candles and a period between 1 and n, the smoothed moving average has exactly n - period + 1 values. The first is the mean of the first period closes and every later one equals (previous x (period - 1) + close) / period for the corresponding candle.",
  ["inputs"], "every series of closes and every valid period",
  "One series with period 2 and a one-sided assertion.",
  [MA], [("recurrence", MA + ":SmoothedMovingAverage")], [], ["SmoothedMovingAverage result"])
RS = "indicators/rsi.go"
p("C26", "RSI measures the share of gains in every window and stays in 0..100",
  "For n >= 14 candles and a period between 1 and n - 1, the RSI has exactly n - period values; the k-th is 100 x gains / (gains + losses) over the period close-to-close changes starting at candle k, and 50 when there was no change. It therefore is a number from 0 to 100, is 100 when the price only rose and 0 when it only fell, and depends on no candle outside its window.",
  ["inputs"], "every series of at least 14 closes and every period shorter than the series",
  "TestRSI only checks that the result is not nil.",
  [RS], [("window loop", RS + ":RSI"), ("gains and losses", RS + ":calculateRSI")], [], ["RSI result"])
p("C27", "Exponentially weighted volatility folds candle ranges oldest to newest",
  "The volatility of no candles is 0, and adding one candle turns volatility v into beta x v + (1 - beta) x (high - low) of that candle. For beta between 0 and 1 it therefore lies between 0 and the largest range.",
  ["inputs", "histories"], "every series of candles and every beta in 0..1",
  "One data set with beta 0.5.",
  ["indicators/ewv.go"], [("fold", "indicators/ewv.go:ExponentialWeightedVolatility")], [], ["ExponentialWeightedVolatility result"])
WF = "indicators/williams_fractals.go"
p("C28", "Fractals are exactly the confirmed local extremes",
  "An up fractal is reported at a candle exactly when the two candles before it have strictly lower highs and, after it, two candles with strictly lower highs appear before any candle with a higher high (equal highs neither confirm nor break it); a down fractal is the mirror image on lows. Each is reported once, with the time and the high (low) of its candle, in time order; fewer than five candles have none.",
  ["inputs"], "every series of highs and lows, including plateaus",
  "Tests count fractals in two fixed series.",
  [WF], [("candidate and confirmation scan", WF + ":findFractal"), ("sliding start", WF + ":WilliamFractals")], [], ["WilliamFractals result"])
p("C29", "Fractals never repaint when candles are added",
  "Every fractal reported for a series is still reported, unchanged, for every extension of that series by later candles, in the same relative order.",
  ["histories"], "every series and every extension of it, candle by candle",
  "Needs two related series; tests evaluate series in isolation.",
  [WF], [("confirmation required at the end of the series", WF + ":findFractal")], [], ["WilliamFractals results of prefixes"])
p("C30", "Indicators are causal and leave their input untouched",
  "For every indicator, the values reported for a series are a prefix of the values reported for any extension of it by later candles, so no value depends on a later candle or on memory beyond the end of the series. Calling an indicator never modifies the candles and repeating a call gives the same result.",
  ["histories", "inputs"], "every series, every extension, every backing-array capacity and every period",
  "Needs related series and control over slice capacity; tests evaluate one series each.",
  [MA, RS, "indicators/ewv.go", WF], [("window bounds", "indicator loops")], [], ["results on prefixes", "candles after the call"])
p("C31", "Indicators reject impossible periods with an error and no values",
  "The simple, exponential and smoothed averages return an error and no values exactly when the candles are missing (nil), the period is not positive, or it exceeds the number of candles; RSI does so exactly when the candles are missing, fewer than 14, not more than the period, or the period is not positive. They never panic or loop forever.",
  ["inputs"], "every series length and every integer period",
  "One rejected call of one indicator is tested.",
  [MA, RS], [("argument checks", "start of each indicator")], [], ["returned errors"])
p("C32", "Strategy actions are never lost, mixed up or given a duplicate identifier",
  "Adding actions of any kind in any order keeps every previously added action, stores each added one with its data unchanged under a fresh identifier that is the key it is stored under, and touches no other kind. Identifiers are unique over all actions ever added, whatever identifiers the given actions carried, and the caller's values are not modified.",
  ["histories"], "every sequence of additions of every kind, including repeated and pre-identified actions and empty additions",
  "The strategy package has no tests.",
  ["strategy/actions.go", "strategy/order_actions.go", "strategy/position_actions.go"], [("identifier generation and map insertion", "strategy/actions.go")], [("Actions", "maps of pending actions by kind", "strategy/actions.go")], ["Actions maps"])
p("C33", "Annotations are kept in order and created with unique identifiers",
  "A created annotation carries the given time, price, label and tooltip and an identifier different from that of every other created one. Adding annotations to the actions of a strategy appends them unchanged, in order, after those already there.",
  ["histories"], "every sequence of creations and additions",
  "The strategy package has no tests.",
  ["strategy/annotation.go", "strategy/actions.go"], [("creation", "strategy/annotation.go:NewAnnotation"), ("append", "strategy/actions.go:AddAnnotations")], [], ["Annotation fields", "Actions.Annotations"])
p("C34", "Tick time is the candle's instant in every time zone",
  "The local time of a tick and its time in any known location denote exactly the instant of its candle; in a location the wall clock is that instant shifted by the location's offset. An unknown location is an error.",
  ["inputs", "configurations"], "every candle time and every location",
  "The strategy package has no tests.",
  ["strategy/strategy.go"], [("conversion", "strategy/strategy.go:GetLocationTime, GetLocalTime")], [], ["returned times"])
p("C35", "Pair symbols and the pair table agree",
  "The symbol of a pair is base, separator, quote, or the base alone when there is no quote. In the pair table every entry has a non-empty base and a different non-empty quote that is one of the exchange's quote currencies, and its symbol without separator is exactly the key it is stored under.",
  ["inputs", "configurations"], "every pair, separator and every one of the table's entries",
  "The test of the table needs a network and checks nothing; symbols are tested for two pairs.",
  ["market/pair.go", "market/pair_mappings.go"], [("symbol", "market/pair.go:Symbol"), ("table", "market/pair_mappings.go:PairMappings")], [], ["PairMappings", "Pair.Symbol"])
p("C36", "Asset lookups resolve each symbol to its own asset",
  "Looking up a supported crypto, forex or stock symbol returns an asset with exactly that symbol and the name of that asset, and no two symbols over the three catalogues share a name. Any other symbol, including one of another catalogue or in another case, is a not-found error with an empty asset; creating an asset fails exactly when symbol or name is empty.",
  ["inputs"], "every string and all three catalogues",
  "Two symbols are looked up in tests and the results are not compared.",
  ["market/asset_helpers.go", "market/asset.go"], [("catalogues", "market/asset_helpers.go"), ("validation", "market/asset.go:NewAsset")], [], ["returned asset and error"])
p("C37", "Raw dates parse to midnight UTC of exactly the existing dates",
  "A date YYYY-MM-DD that exists in the calendar parses to midnight UTC of that day; consecutive dates are exactly 24 hours apart over month, year and leap-year boundaries. Every other string is an error.",
  ["inputs"], "every year, month and day and every malformed string",
  "The utils package has no tests.",
  ["utils/date.go"], [("parsing", "utils/date.go:RawDateToRFC3339")], [], ["returned time and error"])
p("C38", "Printing any model never panics and shows its key data",
  "Rendering any market or strategy model as text succeeds for every value of its fields, including zero values, missing references and short identifiers, and does not change the model. Orders, trades and annotations show their full identifier, positions at least its first eight characters, and pairs both symbols.",
  ["inputs"], "every model value reachable or not",
  "Only the order book is printed in tests.",
  ["market/*.go", "strategy/annotation.go"], [("String methods", "market, strategy")], [], ["String results"])

p("C39", "Printed models show each field's own value behind its label",
  "In the text of every market and strategy model with labels (candles, tickers, book rows, balances, requests, orders, trades, positions, annotations), each label is followed by the value of the field it names, in the model's order and rounded to the shown decimals; the text of an asset or pair shows its own names or symbols in order.",
  ["inputs"], "every value of every printed field, including zero, negative and missing ones",
  "No test looks at printed text, so exchanging two fields of the same type goes unnoticed.",
  ["market/*.go", "strategy/annotation.go"], [("format strings and their arguments", "String methods in market and strategy")], [], ["String results"])
p("C40", "The printed order book is the ladder of its levels",
  "Printing a book writes every ask once from the worst to the best price, one separating line, and every bid once from the best to the worst, each with its price, volume and accumulated volume. The text of a book gives its time, then its asks and then its bids, each from the best price.",
  ["histories", "inputs"], "every reachable book, including empty and one-sided ones",
  "The tests print books but do not look at what is printed.",
  [OB], [("ladder", OB + ":Print"), ("text", OB + ":String")], book_state, ["standard output of Print", "String result"])
p("C41", "A position keeps its identity and takes its terms from the opening trade",
  "A new position has the pair, price, quantity and time of its opening trade, a non-empty identifier no other position has (also when positions are opened concurrently), and no profit, closing data or close orders. No later trade, accepted or not, changes its identifier, type, pair, opening time, take-profit, stop-loss, execution identifier or data, and no trade handed in is modified.",
  ["histories", "inputs"], "every opening trade and every later sequence of trades, with every content of the remaining fields",
  "Tests compare prices and quantities of a few positions and never the fields that must not change.",
  ["market/position.go"], [("construction", "market/position.go:NewPosition"), ("changes by trades", "market/position.go:Modify, add, substract")], [("Position", "identity, terms and progress of a position", "market/position.go")], ["Position fields", "Trade fields"])
p("C42", "Calls share no state: results and inputs stay as they were",
  "In any program over the library, a call changes nothing the program holds except the book or position it is applied to: earlier results and earlier inputs (candles, rows, books, trades, requests, values) stay as they were, also when the program overwrites a result or input it owns. The same call on equal inputs gives an equal result, whatever was called before, also from several goroutines at once. Resampling fewer than two candles may return them as they are.",
  ["histories", "schedules", "inputs"], "every sequence of calls of the indicators, resampling, candle files, books, positions, requests and lookups, with any values reused, and concurrent repetitions",
  "Tests make single calls on fresh data and drop the results, so shared buffers, caches and aliasing cannot show.",
  ["market/*.go", "indicators/*.go", "utils/date.go"], [("allocation of results", "exported functions"), ("copies of arguments", OB + ":NewOrderBook")], [], ["everything returned or handed in so far"])
p("C43", "Results do not depend on the time zone of the machine",
  "Resampling, the smallest interval, fractals, candle files, date parsing and the time of a tick in a named location give the same result on machines in every local time zone, including zones with offsets that are not whole hours and around changes of the clock; the local time of a tick is always the same instant.",
  ["inputs", "configurations"], "every series, interval, date and location, in every local time zone",
  "Tests run in the one zone of the machine.",
  ["market/candle.go", "market/candle_load.go", "utils/date.go", "strategy/strategy.go"], [("grid of full minutes", "market/candle.go:findFirstIndex")], [], ["results under different time.Local"])
p("C44", "An order book is nothing but its levels",
  "A book rebuilt from its current rows in any order, or restored from JSON, equals the original and reacts to every update exactly as the original does. Applying the same update again changes nothing more.",
  ["histories", "inputs"], "every reachable book and every update",
  "Needs a second book that follows the first one; tests use single books.",
  [OB], [("update", OB + ":ApplyUpdate"), ("construction", OB + ":NewOrderBook, sort")], book_state, ["OrderBook.Asks", "OrderBook.Bids"])
p("C45", "Long and short positions are mirror images",
  "Swapping buys and sells in any history of trades gives a position of the opposite type with the same quantity, average price, closing price and time, openness and trade list, the same accepted and rejected trades, and the negated profit; its unrealized profit at every price is the negated one.",
  ["histories"], "every history of trades",
  "Needs two related histories; tests use separate numbers for long and short positions.",
  ["market/position.go"], [("branches by type and action", "market/position.go:Modify, substract, UnrealizedProfit")], [("Position", "type, quantity, average price and profit", "market/position.go")], ["Position fields"])
p("C46", "The two sides of an order book are mirror images",
  "Exchanging asks and bids and reversing the order of prices in a snapshot and in every update gives, after every step, the mirror image of the book: the same levels with the same volumes and accumulated volumes on the other side, the same errors, and the same answer to the mirrored depth query.",
  ["histories", "inputs"], "every uncrossed snapshot, every sequence of updates and every queried price",
  "The code has a separate copy of every branch for each side; tests touch few branches of either.",
  [OB], [("branches per side", OB + ":ApplyUpdate, removeInvalid, GetDepth")], book_state, ["OrderBook.Asks", "OrderBook.Bids", "GetDepth result"])
p("C47", "Indicators do not depend on the unit, origin or direction of prices",
  "Multiplying all prices by a positive number multiplies the averages and the volatility by it and changes neither RSI values nor which candles are fractals; adding a number to all prices shifts the averages and fractal prices by it and leaves volatility and RSI unchanged; negating all prices (exchanging highs and lows) negates the averages, turns RSI r into 100 - r, exchanges up and down fractals and leaves volatility unchanged.",
  ["inputs"], "every series, period and factor, up to rounding",
  "Needs related series; tests use prices of one magnitude.",
  [MA, RS, "indicators/ewv.go", WF], [("arithmetic on prices", "indicator loops")], [], ["indicator results"])
p("C48", "Independent order book updates commute, and a book can be built level by level",
  "Updates at different prices of one side of an uncrossed book give the same book in whatever order they are applied, provided they all set levels, all remove levels, or leave room within the maximum depth; the same holds for updates of both sides if every ask among the book and the updates is above every bid. In particular, setting all levels of any book one by one, in any order, in an empty book of the same maximum depth gives the same levels and accumulated volumes.",
  ["histories", "inputs"], "every reachable uncrossed book and every set of such updates in every order",
  "Needs several orders of the same updates; the tests apply one order.",
  [OB], [("ordered insertion, replacement and deletion", OB + ":ApplyUpdate"), ("truncation and accumulation", OB + ":limit, accumulate")], book_state, ["OrderBook.Asks", "OrderBook.Bids"])
PO = "market/position.go"
pos_state = [("Position", "type, quantity, average price, closing price and profit", PO)]
p("C49", "A trade executed in parts leads to the same position as one executed at once",
  "Dividing an accepted trade of any history into several trades of the same action, pair, price and time whose quantities add up to it gives a position of the same type, openness, quantity and average price, and if it is closed the same closing price, closing time and profit. Each part is accepted, provided what precedes the last part does not already close the position.",
  ["histories"], "every history of trades and every division of its accepted trades",
  "Needs two related histories; tests use one.",
  [PO], [("averaging", PO + ":add"), ("reduction and closing", PO + ":substract")], pos_state, ["Position fields", "error of Modify"])
p("C50", "Positions do not depend on the units of their trades or the origin of prices",
  "Multiplying all prices or all quantities of a history by a positive number multiplies the average and closing price, or the quantity, by it and the profit and unrealized profit as well; adding a number to all prices adds it to the average and closing price and changes neither the quantity, the profit nor the unrealized profit. The same trades are accepted and rejected and the position closes at the same trade, apart from closing trades that are larger than the position by up to the absolute tolerance.",
  ["histories", "inputs"], "every history of trades, every factor (for quantities: at least one) and every shift, up to rounding",
  "Needs related histories; tests use numbers of one magnitude.",
  [PO], [("arithmetic on prices and quantities", PO + ":add, substract, UnrealizedProfit")], pos_state, ["Position fields", "UnrealizedProfit result", "error of Modify"])
p("C51", "Resampling an interval depends on nothing but the candles in it",
  "Moving a series by whole hours moves the resampled candles by as much and changes nothing else; appending candles changes no resampled candle but the last and those after it. Resampling the part of a series that begins with the first candle of an interval, on the grid of the target, gives the resampled candles from that interval on.",
  ["inputs"], "every time-ordered series with times on full minutes, every interval, every cut and every shift by whole hours",
  "Needs related series; the test resamples one file at a few intervals.",
  ["market/candle.go"], [("start of the grid", "market/candle.go:findFirstIndex"), ("intervals", "market/candle.go:ModifyInterval")], [], ["ModifyInterval result"])
p("C52", "Stored documents keep their names and words",
  "Every field of orders, trades, positions, candles, books and their rows and updates, tickers, balances, pairs, assets, annotations and strategy actions is written to JSON under its own name in lower snake case (order_id, executed_volume, max_depth, vwap), and reading a document with some of these names sets exactly those fields. Actions, order types, order statuses and position types are stored as buy, sell; market, close_position, limit, take_profit, stop_loss; fulfilled, partial_fill, unfilled, canceled; long, short.",
  ["inputs"], "every model, every value of its fields and every subset of its names",
  "A renamed or exchanged name still survives writing and reading back with the same version; only documents of others show it.",
  ["market/order.go", "market/trade.go", PO, "market/candle.go", OB, "market/orderbook_types.go", "market/ticker.go", "market/balances.go", "market/pair.go", "market/asset.go", "strategy/annotation.go", "strategy/order_actions.go", "strategy/position_actions.go"],
  [("names of fields", "struct tags"), ("words", "market/order.go, market/position.go constants")], [], ["JSON documents"])
p("C53", "What a desk owns is explained by its profits and fees",
  "Let a desk complete order requests, execute them as trades at the completed price and quantity with the total plus or minus a fee as cost, pay or receive the cost in cash, and keep one position per pair. At any moment and at any market prices, cash plus the value of the open positions (negative for short ones) equals the initial cash plus the profits of closed positions plus the unrealized profits of open ones less all fees; refused trades change nothing.",
  ["histories"], "every session of orders, by quantity or by total, of every type, on several pairs, and every market price",
  "Ties requests, trades and positions together over a whole session; the tests look at each of them alone.",
  ["market/order_request.go", "market/trade.go", PO], [("completion", "market/order_request.go:CalculateFields"), ("fee", "market/trade.go:NewTrade"), ("position", PO + ":Modify, UnrealizedProfit")], pos_state, ["Trade.Cost", "Trade.Fee", "Position fields", "UnrealizedProfit result"])
p("C54", "An order book carries the time at which it was made",
  "A new order book carries the Unix time in seconds at which it was made, whatever the local time zone, and keeps it through every sequence of updates.",
  ["configurations", "histories"], "every snapshot, sequence of updates and local time zone",
  "No test reads the time of a book.",
  [OB], [("stamp", OB + ":NewOrderBook")], [("OrderBook.Time", "when the book was made", OB)], ["OrderBook.Time"])

p("C55", "The trades of an open position can be exchanged",
  "Trades that open, add to and reduce a position without ever closing it give the same quantity and average price in every order in which the first one is in the direction of the position and the quantity never runs out. Every such order accepts all of them, and closing the position afterwards with the same trade gives the same profit, up to rounding.",
  ["histories", "schedules"], "every collection of trades of one pair and every two such orders of it",
  "Needs two runs of the same trades in different orders; tests run one order each.",
  [PO], [("weighted average", PO + ":add"), ("reduction", PO + ":substract"), ("dispatch", PO + ":Modify")], [], ["Position quantity, average price, profit"])
p("C56", "An order book looks only at the order of prices and at sums of volumes",
  "Replacing all prices in a snapshot, its updates and the depth queries by other positive prices in the same order, and multiplying all volumes by a positive number, gives after every step the same book with the new prices and the multiplied volumes and accumulated volumes. Errors are the same, and the answers to depth queries are multiplied by the same number, up to rounding.",
  ["histories", "inputs"], "every snapshot with distinct prices on each side, sequence of updates, queried price and pair of price scales",
  "Tests use prices and volumes of one magnitude.",
  [OB], [("comparison of prices", OB + ":ApplyUpdate"), ("depth", OB + ":GetDepth")], book_state, ["OrderBook.Asks", "OrderBook.Bids", "GetDepth result"])
p("C57", "Orders by quantity and by total agree",
  "An order request completed from a quantity and one completed from the resulting total have the same quantity and total, up to rounding, whenever the reference price is not zero; several times the quantity or total gives several times both. The amounts do not depend on the action, the pair, the take-profit or stop-loss, nor on the price that is not the reference price of the order's type.",
  ["inputs", "configurations"], "every order type, reference price, quantity of either sign, and multiple",
  "Needs related requests; every row of the test table stands alone.",
  [OR], [("completion", OR + ":CalculateFields")], [], ["completed quantity and total"])
p("C58", "Averages and volatility are weighted means of what they are given",
  "Every value of the simple, exponential and smoothed moving average lies between the lowest and the highest close it is made of, and the exponentially weighted volatility lies between zero and the highest range. For two series of closes (or of ranges) of one length, the values for their sum are the sums of their values, and raising some closes or ranges never lowers a value, up to rounding.",
  ["inputs"], "every pair of series of one length and every period",
  "Needs related series; tests evaluate one series each.",
  [MA, "indicators/ewv.go"], [("simple average", MA + ":average"), ("exponential average", MA + ":ExponentialMovingAverage"), ("smoothed average", MA + ":SmoothedMovingAverage")], [], ["indicator values"])
p("C59", "Windowed indicators forget what is behind their window",
  "A value of the simple moving average or of the RSI does not change when candles before its window are removed or replaced by any others. Likewise a fractal is found or not found whatever the candles earlier than the two before it are.",
  ["inputs"], "every series, every number of its first candles and every replacement of them",
  "Needs related series; tests evaluate one series each.",
  [MA, RS, WF], [("window of the average", MA + ":MovingAverage"), ("window of the RSI", RS + ":RSI"), ("left neighbours", WF + ":WilliamFractals")], [], ["indicator values"])
p("C60", "A cut candle file never gives a wrong candle, and files can be joined",
  "A saved file has one line for each candle. Cut off behind any byte, it loads as exactly the candles of its complete lines if the cut is at the end of a line (with or without the newline) and is refused without any candles otherwise; saved files put one behind the other load as the candles of the first followed by those of the second, and may be cut in the same way.",
  ["crash_points", "inputs"], "every two series of candles and every byte at which their joined files may end",
  "Tests load intact files only.",
  [CL], [("one line per candle", CL + ":SaveCandlesToFile"), ("line checks", CL + ":LoadCandlesFromFile")], [], ["files", "LoadCandlesFromFile result"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
