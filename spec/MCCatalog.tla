----------------------------- MODULE MCCatalog -----------------------------
(* Lookups of every known symbol in every catalogue, and pairs of a few      *)
(* symbols with every separator.                                             *)
EXTENDS Catalog, TLC, Json, IOUtils, CSV

VARIABLES call, answer
vars == <<call, answer>>

Known == UNION {SymbolsOf(w) : w \in Catalogues}
Bases == {"BTC", "ETH", "", "USDT", "A"}
Seps == {"", "/", "-", "_", ":", "%s", "BTC"}

Init == /\ call \in [op : {"lookup"}, which : Catalogues, symbol : Known \cup {""}]
                    \cup [op : {"symbol"}, base : Bases, sep : Seps, quote : Bases]
                    \cup [op : {"new"}, symbol : {"", "BTC", " "}, name : {"", "Bitcoin", " "}]
        /\ answer = "none"
Answer == /\ answer = "none"
          /\ answer' = CASE call.op = "lookup" -> IF call.symbol \in SymbolsOf(call.which) THEN NameIn(call.which, call.symbol) ELSE "not found"
                         [] call.op = "symbol" -> PairSymbol(call.base, call.sep, call.quote)
                         [] call.op = "new" -> IF call.symbol = "" \/ call.name = "" THEN "error" ELSE call.name
          /\ UNCHANGED call
Next == Answer
Spec == Init /\ [][Next]_vars
Emit == CSVWrite("%1$s", <<ToJson(call)>>, IOEnv.EMIT_FILE)

(* ------------------------------ properties ----------------------------- *)
AllAssets == Crypto \o Forex \o Stock
C36 == /\ \A j, k \in 1..Len(AllAssets) : j # k => AllAssets[j][1] # AllAssets[k][1] /\ AllAssets[j][2] # AllAssets[k][2]
       /\ (call.op = "lookup" /\ answer # "none") =>
             ((answer = "not found") = (\A k \in 1..Len(Catalogue(call.which)) : Catalogue(call.which)[k][1] # call.symbol))
(* A key can be split in one way only: no quote currency is a suffix of another. *)
Suffix(x, y) == \E k \in 1..Len(y) : SubSeq(y, k, Len(y)) = x
ASSUME C35 == \A x, y \in Quotes : (x # y) => ~Suffix(x, y)
=============================================================================
