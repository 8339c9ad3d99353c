------------------------------ MODULE Catalog ------------------------------
(* Assets, pairs and their symbols. A catalogue is a sequence of <<symbol,   *)
(* name>>.                                                                   *)
EXTENDS Util

Crypto == <<
    <<"AAVE", "Aave">>,
    <<"ALGO", "Algorand">>,
    <<"BAT", "Basic Attention Token">>,
    <<"BTC", "Bitcoin">>,
    <<"BCH", "Bitcoin Cash">>,
    <<"ADA", "Cardano">>,
    <<"LINK", "Chainlink">>,
    <<"COMP", "Compound">>,
    <<"ATOM", "Cosmos">>,
    <<"DAI", "DAI">>,
    <<"DASH", "Dash">>,
    <<"DOGE", "Dogecoin">>,
    <<"EOS", "EOS.IO">>,
    <<"ETH", "Ethereum">>,
    <<"ETC", "Ethereum Classic">>,
    <<"EWT", "Energy Web Token">>,
    <<"EWTB", "Energy Web Token Bridged">>,
    <<"FILE", "Filecoin">>,
    <<"FLOW", "Flow">>,
    <<"LTC", "Litecoin">>,
    <<"XLM", "Lumen">>,
    <<"XMR", "Monero">>,
    <<"NANO", "Nano">>,
    <<"MATIC", "Polygon">>,
    <<"QTUM", "Qtum">>,
    <<"OCEAN", "Ocean Token">>,
    <<"DOT", "Polkadot">>,
    <<"USDT", "Tether USD">>,
    <<"GRT", "The Graph">>,
    <<"UNI", "Uniswap">>,
    <<"USDC", "USD Coin">>,
    <<"XRP", "Ripple">>,
    <<"ZED", "ZCash">>>>
Forex == <<
    <<"USD", "United States Dollar">>,
    <<"EUR", "Euro">>>>
Stock == <<
    <<"AAPL", "Apple Inc">>>>

Catalogue(which) == CASE which = "crypto" -> Crypto [] which = "forex" -> Forex [] which = "stock" -> Stock
Catalogues == {"crypto", "forex", "stock"}
SymbolsOf(which) == {Catalogue(which)[k][1] : k \in 1..Len(Catalogue(which))}
NameIn(which, symbol) == LET k == CHOOSE k \in 1..Len(Catalogue(which)) : Catalogue(which)[k][1] = symbol
                         IN  Catalogue(which)[k][2]

(* These two tickers are not the ones of the assets they name (ZEC, FIL): an *)
(* implementation may know them or not, but never under another name.        *)
Doubtful == {"ZED", "FILE"}

LookupOK(which, symbol, err, outSymbol, outName) ==
    IF symbol \in SymbolsOf(which) /\ ~(symbol \in Doubtful /\ err # "")
    THEN err = "" /\ outSymbol = symbol /\ outName = NameIn(which, symbol)
    ELSE err = "not_found" /\ outSymbol = "" /\ outName = ""

(* -------------------------------- pairs -------------------------------- *)
Quotes == {"BTC", "USDT", "BUSD", "BNB", "ETH", "TRY", "USDC", "EUR", "PAX", "BRL", "TUSD", "BIDR", "AUD", "RUB", "GBP", "BKRW",
           "NGN", "UAH", "ZAR", "DAI", "IDRT", "USDS", "USDP", "UST", "XRP", "TRX", "BVND", "VAI", "GYEN", "DOGE", "DOT"}
PairSymbol(base, sep, quote) == IF quote = "" THEN base ELSE base \o sep \o quote
EntryOK(key, base, quote) ==
    /\ base # "" /\ quote # "" /\ base # quote
    /\ quote \in Quotes
    /\ PairSymbol(base, "", quote) = key
===========================================================================
