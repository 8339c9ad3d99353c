------------------------------- MODULE MCBook -------------------------------
(* Bounded design model of one order book, checked exhaustively; it also     *)
(* writes every transition as a replayable behaviour.                        *)
EXTENDS OrderBook, TLC, Json, IOUtils, CSV
CONSTANTS MaxPrice, MaxVolume, Depths, SnapshotLen, MaxSteps

VARIABLES book, hist
vars == <<book, hist>>

LevelSet == (1..MaxPrice) \X (1..MaxVolume)
Snapshots == { s \in UNION { [1..n -> LevelSet] : n \in 0..SnapshotLen } : TRUE }
CleanSnapshots == { <<a, b>> \in Snapshots \X Snapshots : CleanSnapshot(a, b) /\ UncrossedSnapshot(a, b) }

Init == \E d \in Depths : \E s \in CleanSnapshots :
            /\ book = NewBook(s[1], s[2], d)
            /\ hist = <<[op |-> "new", asks |-> s[1], bids |-> s[2], depth |-> d]>>

Update(side, p, v) ==
    /\ Len(hist) <= MaxSteps
    /\ book' = Apply(book, side, p, v)
    /\ hist' = Append(hist, [op |-> "upd", side |-> side, p |-> p, v |-> v])

Next == \E side \in Sides \cup {"asks"}, p \in 1..MaxPrice, v \in 0..MaxVolume : Update(side, p, v)
Spec == Init /\ [][Next]_vars

View == <<book, Len(hist)>>
BookView == book
Emit == CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.EMIT_FILE)

(* ------------------------------ properties ----------------------------- *)
Done == hist'[Len(hist')]
C01 == WellFormed(book)
C02Inv == Uncrossed(book)
C02Step == [][OppositeExact(book, Done.side, Done.p, Done.v, book')]_vars
C03Step == [][OwnExact(book, Done.side, Done.p, Done.v, book')]_vars
C04 == AccumExact(book)
(* A book is nothing but its rows: rebuilding it and repeating an update change nothing. *)
C44 == NewBook(Levels(book.asks), Levels(book.bids), book.depth) = book
C44Step == [][Apply(book', Done.side, Done.p, Done.v) = book']_vars
Swapped(side) == IF side \in Sides THEN Opposite(side) ELSE side
C46Step == [][Mirror(book', MaxPrice) = Apply(Mirror(book, MaxPrice), Swapped(Done.side), MaxPrice + 1 - Done.p, Done.v)]_vars
C46 == \A p \in 1..MaxPrice : Depth(Mirror(book, MaxPrice), MaxPrice + 1 - p) = Depth(book, p)
Square(p) == p * p
C56Step == [][Repriced(book', Square, 3) = Apply(Repriced(book, Square, 3), Done.side, Square(Done.p), 3 * Done.v)]_vars
C56 == \A p \in 1..MaxPrice : LET d == Depth(book, p) IN Depth(Repriced(book, Square, 3), Square(p)) = <<d[1], 3 * d[2]>>
(* Along the ladder prices fall strictly. *)
C40 == LET l == Ladder(book)[1] \o Ladder(book)[2] IN \A k \in 2..Len(l) : Price(l[k]) < Price(l[k - 1])
(* Every price has at most one answer, and the answers grow away from the spread. *)
C06 == \A p \in (-1)..(MaxPrice + 1), q \in (-1)..(MaxPrice + 1) :
          LET x == Depth(book, p)
              y == Depth(book, q)
          IN  /\ (x[1] = "invalid") = (p <= 0)
              /\ (p < q /\ x[1] = "ok" /\ y[1] = "ok" /\ book.asks # <<>> /\ p >= Price(book.asks[1])) => x[2] <= y[2]
              /\ (p < q /\ x[1] = "ok" /\ y[1] = "ok" /\ book.bids # <<>> /\ q <= Price(book.bids[1])) => x[2] >= y[2]
=============================================================================
