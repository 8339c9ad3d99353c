----------------------------- MODULE MCRestore -----------------------------
(* A book or a position and a twin that is stored and restored at arbitrary  *)
(* points of the same history: they can never be told apart.                 *)
EXTENDS OrderBook, TLC, Json, IOUtils, CSV
P == INSTANCE Position
CONSTANTS Subjects, Prices, Volumes, MaxSteps

VARIABLES subject, one, twin, hist
vars == <<subject, one, twin, hist>>

(* What is stored: the fields, one after the other. *)
EncodeBook(b) == <<b.asks, b.bids, b.depth>>
DecodeBook(s) == [asks |-> s[1], bids |-> s[2], depth |-> s[3]]
EncodePos(p) == <<p.type, p.pair, p.open, p.price, p.qty, p.close, p.profit>>
DecodePos(s) == [type |-> s[1], pair |-> s[2], open |-> s[3], price |-> s[4], qty |-> s[5], close |-> s[6], profit |-> s[7]]
Restore(x) == IF subject = "book" THEN DecodeBook(EncodeBook(x)) ELSE DecodePos(EncodePos(x))

Sorts == IF subject = "book" THEN {"ask", "bid"} ELSE {"buy", "sell"}
Amounts == IF subject = "book" THEN Volumes \cup {0} ELSE Volumes
Trade(o) == [action |-> o.sort, pair |-> 1, price |-> o.p, qty |-> o.v]
After(x, o) == IF subject = "book" THEN Apply(x, o.sort, o.p, o.v) ELSE P!Modified(x, Trade(o), 0)

Init == /\ subject \in Subjects
        /\ hist = <<>>
        /\ one = IF subject = "book" THEN NewBook(<<>>, <<>>, 2) ELSE P!Opened([action |-> "buy", pair |-> 1, price |-> 2, qty |-> 2])
        /\ twin = one
Step(o) ==
    /\ Len(hist) < MaxSteps
    /\ one' = After(one, o)
    /\ twin' = After(IF o.restore THEN Restore(twin) ELSE twin, o)
    /\ hist' = Append(hist, o)
    /\ UNCHANGED subject
Next == \E o \in [sort : Sorts, p : Prices, v : Amounts, restore : BOOLEAN] : Step(o)
Spec == Init /\ [][Next]_vars
Emit == Len(hist') < MaxSteps \/ CSVWrite("%1$s", <<ToJson([subject |-> subject, ops |-> hist'])>>, IOEnv.EMIT_FILE)
C16 == one = twin
=============================================================================
