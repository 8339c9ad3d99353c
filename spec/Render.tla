------------------------------- MODULE Render -------------------------------
(* Models shown as text: a layout lists, in order, which label introduces    *)
(* which field.  Values are sequences of integers: amounts in 1e-4, names as *)
(* numbers of distinct names, times as seconds after some instant.           *)
EXTENDS Util

F(label, field, sort, decimals) == [label |-> label, field |-> field, sort |-> sort, dec |-> decimals]
Name(label, field) == F(label, field, "name", 0)
Amount(label, field, decimals) == F(label, field, "amount", decimals)

LayoutOf == [
    candle |-> <<F("Time: ", "Time", "time", 0), Amount("Open: ", "Open", 4), Amount("High: ", "High", 4), Amount("Low: ", "Low", 4),
                 Amount("Close: ", "Close", 4), Amount("Volume: ", "Volume", 4)>>,
    row |-> <<Amount("Price: ", "Price", 3), Amount("Volume: ", "Volume", 3), Amount("AccumVolume: ", "AccumVolume", 3)>>,
    ticker |-> <<F("Time: ", "Time", "number", 0), Amount("Ask: ", "Ask", 4), Amount("Bid: ", "Bid", 4), Amount("Last: ", "Last", 4),
                 Amount("Volume: ", "Volume", 4), Amount("VWAP: ", "VWAP", 4)>>,
    snapshot |-> <<Amount("Balance: ", "Balance", 4), Amount("Equity: ", "Equity", 4), Amount("Margin: ", "Margin", 4), Amount("Free Margin: ", "FreeMargin", 4)>>,
    balance |-> <<F("Asset: ", "Asset", "names", 0), Amount("Amount: ", "Amount", 4)>>,
    asset |-> <<F("", "self", "names", 0)>>,
    pair |-> <<F("", "self", "names", 0)>>,
    closeorder |-> <<Amount("Price: ", "Price", 4), Name("OrderID: ", "OrderID")>>,
    annotation |-> <<Name("ID: ", "ID"), F("Time: ", "Time", "number", 0), F("Creation Time: ", "CreationTime", "number", 0), Amount("Price: ", "Price", 4),
                     Name("ExecutionID: ", "ExecutionID"), Name("Label: ", "Label"), Name("Tooltip: ", "Tooltip")>>,
    request |-> <<Name("Action: ", "Action"), Name("Type: ", "Type"), F("Pair: ", "Pair", "names", 0), Amount("Quantity: ", "Quantity", 4),
                  Amount("Price: ", "Price", 4), Amount("Total: ", "Total", 4)>>,
    order |-> <<Name("ID: ", "ID"), Name("Action: ", "Action"), Name("Type: ", "Type"), F("Pair: ", "Pair", "names", 0), Amount("Price: ", "Price", 4),
                Amount("Volume: ", "Volume", 4), Amount("ExecVolume: ", "ExecutedVolume", 4), Amount("Fee: ", "Fee", 4), Amount("Cost: ", "Cost", 4),
                Name("Status: ", "Status"), F("OT: ", "OpenTime", "time", 0), F("CT: ", "CloseTime", "time", 0)>>,
    trade |-> <<Name("ID: ", "ID"), F("Execution Time: ", "ExecutionTime", "time", 0), Name("Action: ", "Action"), Name("Type: ", "OrderType"),
                F("Pair: ", "Pair", "names", 0), Amount("Price: ", "Price", 2), Amount("Quantity: ", "Quantity", 4), Amount("Fee: ", "Fee", 2), Amount("Cost: ", "Cost", 2)>>,
    position |-> <<Name("ID: ", "ID"), Name("Type: ", "Type"), F("Pair: ", "Pair", "names", 0), F("Open: ", "Open", "flag", 0), Amount("OpenPrice: ", "OpenPrice", 2),
                   Amount("ClosePrice: ", "ClosePrice", 2), Amount("Quantity: ", "Quantity", 4), Amount("Profit: ", "Profit", 2),
                   F("OpenTime: ", "OpenTime", "time", 0), F("CloseTime: ", "CloseTime", "time", 0), F("# Trades: ", "Trades", "count", 0)>> ]
RenderKinds == DOMAIN LayoutOf

Steps(decimals) == CASE decimals = 2 -> 100 [] decimals = 3 -> 10 [] OTHER -> 1

(* What is shown is the value, rounded to the decimals of the layout. *)
ShownAs(f, value, shown) ==
    CASE f.sort = "amount" -> Len(shown) = 1 /\ Abs(shown[1]) <= 500000000 /\ 2 * Abs(shown[1] - value[1]) <= Steps(f.dec)
      [] f.sort = "names" -> IsSubsequence(value, shown)
      [] OTHER -> shown = value

ShowsAll(kind, fields, shown) ==
    LET l == LayoutOf[kind]
    IN  /\ Len(shown) = Len(l)
        /\ \A k \in 1..Len(l) : ShownAs(l[k], fields[l[k].field], shown[k])
=============================================================================
