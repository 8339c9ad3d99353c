-------------------------------- MODULE Wire --------------------------------
(* Stored documents: under which name each field of each model is stored, and *)
(* the words kinds of things are stored as.                                   *)
EXTENDS Util

Layout ==
    [Asset |-> <<<<"Name", "name">>, <<"Symbol", "symbol">>, <<"AltSymbol", "alt_symbol">>>>,
     BalanceSnapshot |-> <<<<"Balance", "balance">>, <<"Equity", "equity">>, <<"Margin", "margin">>,
         <<"FreeMargin", "free_margin">>>>,
     AssetsSnapshot |-> <<<<"Time", "time">>, <<"Assets", "assets">>>>,
     Balance |-> <<<<"Asset", "asset">>, <<"Amount", "amount">>>>,
     Candle |-> <<<<"Time", "time">>, <<"Open", "open">>, <<"High", "high">>, <<"Low", "low">>, <<"Close", "close">>,
         <<"Volume", "volume">>>>,
     Order |-> <<<<"ID", "id">>, <<"Action", "action">>, <<"Type", "type">>, <<"Pair", "pair">>, <<"Price", "price">>,
         <<"Volume", "volume">>, <<"ExecutedVolume", "executed_volume">>, <<"Fee", "fee">>, <<"Cost", "cost">>,
         <<"Status", "status">>, <<"OpenTime", "open_time">>, <<"CloseTime", "close_time">>, <<"Trades", "trades">>,
         <<"TakeProfit", "take_profit">>, <<"StopLoss", "stop_loss">>, <<"PositionID", "position_id">>,
         <<"ExecutionID", "execution_id">>>>,
     OrderBook |-> <<<<"Time", "time">>, <<"Asks", "asks">>, <<"Bids", "bids">>, <<"MaxDepth", "max_depth">>>>,
     OrderBookRow |-> <<<<"Price", "price">>, <<"Volume", "volume">>, <<"AccumVolume", "accum_volume">>>>,
     OrderBookUpdate |-> <<<<"Price", "price">>, <<"Volume", "volume">>, <<"Side", "side">>>>,
     Pair |-> <<<<"Base", "base">>, <<"Quote", "quote">>>>,
     PositionCloseOrder |-> <<<<"Price", "price">>, <<"OrderID", "order_id">>>>,
     Position |-> <<<<"ID", "id">>, <<"Type", "type">>, <<"Pair", "pair">>, <<"Open", "open">>, <<"TakeProfit", "take_profit">>,
         <<"StopLoss", "stop_loss">>, <<"OpenPrice", "open_price">>, <<"ClosePrice", "close_price">>, <<"Quantity", "quantity">>,
         <<"Profit", "profit">>, <<"OpenTime", "open_time">>, <<"CloseTime", "close_time">>, <<"Trades", "trades">>,
         <<"ExecutionID", "execution_id">>, <<"Data", "data">>>>,
     Ticker |-> <<<<"Time", "time">>, <<"Ask", "ask">>, <<"Bid", "bid">>, <<"Last", "last">>, <<"Volume", "volume">>,
         <<"VWAP", "vwap">>>>,
     Trade |-> <<<<"ID", "id">>, <<"ExecutionTime", "execution_time">>, <<"Action", "action">>, <<"OrderType", "order_type">>,
         <<"Pair", "pair">>, <<"Price", "price">>, <<"Quantity", "quantity">>, <<"Fee", "fee">>, <<"Cost", "cost">>,
         <<"ExecutionID", "execution_id">>>>,
     Annotation |-> <<<<"ID", "id">>, <<"Time", "time">>, <<"CreationTime", "creation_time">>, <<"Price", "price">>,
         <<"ExecutionID", "execution_id">>, <<"Label", "label">>, <<"Tooltip", "tooltip">>>>,
     CreateOrderAction |-> <<<<"ID", "id">>, <<"Symbol", "symbol">>, <<"ActionType", "action_type">>,
         <<"OrderType", "order_type">>, <<"Price", "price">>, <<"Volume", "volume">>, <<"StopLoss", "stop_loss">>,
         <<"TakeProfit", "take_profit">>, <<"Slippage", "slippage">>>>,
     UpdateOrderAction |-> <<<<"ID", "id">>, <<"OrderID", "order_id">>, <<"Price", "price">>, <<"Volume", "volume">>,
         <<"StopLoss", "stop_loss">>, <<"TakeProfit", "take_profit">>, <<"Slippage", "slippage">>>>,
     CancelOrderAction |-> <<<<"ID", "id">>, <<"OrderID", "order_id">>>>,
     UpdatePositionAction |-> <<<<"ID", "id">>, <<"PositionID", "position_id">>, <<"ActionType", "action_type">>,
         <<"OrderType", "order_type">>, <<"Volume", "volume">>, <<"StopLoss", "stop_loss">>, <<"TakeProfit", "take_profit">>,
         <<"Slippage", "slippage">>>>,
     ClosePositionAction |-> <<<<"ID", "id">>, <<"PositionID", "position_id">>>>]

Words ==
    [BuyAction |-> "buy", SellAction |-> "sell",
     MarketOrder |-> "market", ClosePosition |-> "close_position", LimitOrder |-> "limit", TakeProfit |-> "take_profit", StopLoss |-> "stop_loss",
     FulfilledOrder |-> "fulfilled", PartialyFilledOrder |-> "partial_fill", UnfilledOrder |-> "unfilled", CanceledOrder |-> "canceled",
     LongPosition |-> "long", ShortPosition |-> "short"]

Models == DOMAIN Layout
FieldsOf(m) == {Layout[m][k][1] : k \in 1..Len(Layout[m])}
NamesOf(m) == {Layout[m][k][2] : k \in 1..Len(Layout[m])}
FieldOf(m, name) == LET k == CHOOSE k \in 1..Len(Layout[m]) : Layout[m][k][2] = name IN Layout[m][k][1]
NameOf(m, field) == LET k == CHOOSE k \in 1..Len(Layout[m]) : Layout[m][k][1] = field IN Layout[m][k][2]

(* Every name belongs to one field. *)
ASSUME \A m \in Models : Cardinality(FieldsOf(m)) = Len(Layout[m]) /\ Cardinality(NamesOf(m)) = Len(Layout[m])

(* Reading a document with some of the names takes over those fields only. *)
Read(m, old, doc) == [f \in FieldsOf(m) |-> IF NameOf(m, f) \in DOMAIN doc THEN doc[NameOf(m, f)] ELSE old[f]]
Written(m, val) == [n \in NamesOf(m) |-> val[FieldOf(m, n)]]
=============================================================================
