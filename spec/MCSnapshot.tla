----------------------------- MODULE MCSnapshot -----------------------------
(* Construction from every sequence of rows within the bounds (duplicates,   *)
(* any order, crossed or not), followed by updates on one of two books built *)
(* from the same rows.                                                       *)
EXTENDS OrderBook, TLC, Json, IOUtils, CSV
CONSTANTS MaxPrice, MaxVolume, Depths, MaxLen, MaxSteps

VARIABLES book, sibling, given, hist
vars == <<book, sibling, given, hist>>

Rows == UNION { [1..n -> (1..MaxPrice) \X (1..MaxVolume)] : n \in 0..MaxLen }

Init == \E d \in Depths, s \in Rows, side \in Sides :
            LET asks == IF side = "ask" THEN s ELSE <<>>
                bids == IF side = "bid" THEN s ELSE <<>>
            IN  /\ book = NewBook(asks, bids, d)
                /\ sibling = NewBook(asks, bids, d)
                /\ given = [asks |-> asks, bids |-> bids]
                /\ hist = <<[op |-> "new", asks |-> asks, bids |-> bids, depth |-> d]>>

Update(side, p, v) ==
    /\ Len(hist) <= MaxSteps
    /\ book' = Apply(book, side, p, v)
    /\ hist' = Append(hist, [op |-> "upd", side |-> side, p |-> p, v |-> v])
    /\ UNCHANGED <<sibling, given>>
Next == \E side \in Sides, p \in 1..MaxPrice, v \in 0..MaxVolume : Update(side, p, v)
Spec == Init /\ [][Next]_vars
Emit == CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.EMIT_FILE)

C05 == /\ SnapshotExact(given.asks, given.bids, sibling.depth, sibling)
       /\ Len(hist) = 1 => /\ SnapshotExact(given.asks, given.bids, book.depth, book)
                           /\ AccumExact(book)
(* nothing better than a kept row was dropped *)
C05Best == Len(hist) = 1 => \A s \in Sides :
             LET g == IF s = "ask" THEN given.asks ELSE given.bids
                 r == RowsOf(book, s)
             IN  /\ Len(r) = Min2(Len(g), book.depth)
                 /\ \A k \in 1..Len(r) : Cardinality({j \in 1..Len(g) : Better(s, g[j][1], r[k][1])}) <= k - 1
=============================================================================
