----------------------------- MODULE TraceBook -----------------------------
(* Judges order-book steps recorded from the code against the properties of  *)
(* OrderBook.tla.  One log line is one public call; `book` is the observed   *)
(* book after the previous line.                                             *)
EXTENDS OrderBook, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE_FILE)
Prop == IOEnv.PROP

(* clean, uncrossed: what the snapshot of the book was; stamp: the time set on it *)
VARIABLES i, book, clean, uncrossed, given, stamp
vars == <<i, book, clean, uncrossed, given, stamp>>

NoBook == [asks |-> <<>>, bids |-> <<>>, depth |-> 0]
NoRows == [asks |-> <<>>, bids |-> <<>>]

Init == i = 1 /\ book = NoBook /\ clean = FALSE /\ uncrossed = FALSE /\ given = NoRows /\ stamp = 0

Obs(e) == [asks |-> e.obs.asks, bids |-> e.obs.bids, depth |-> e.obs.depth]

(* The rows handed in are untouched and the sibling book built from them has not moved. *)
Owned(e, g) ==
    /\ e.inAsks = g.asks /\ e.inBids = g.bids
    /\ SnapshotExact(g.asks, g.bids, e.obs2.depth, e.obs2)

New(e) ==
    LET ok == CleanSnapshot(e.asks, e.bids)
        below == UncrossedSnapshot(e.asks, e.bids)
        after == Obs(e)
    IN  /\ e.panic = FALSE
        /\ after.depth = e.depth
        /\ CASE Prop = "C01" -> ok => WellFormed(after)
             [] Prop = "C02" -> ok /\ below => Uncrossed(after)
             [] Prop = "C04" -> Counted(after) => AccumExact(after)
             [] Prop = "C05" -> SnapshotExact(e.asks, e.bids, e.depth, after)
                                /\ Owned(e, [asks |-> e.asks, bids |-> e.bids])
             [] Prop = "C54" -> e.early >= 0 /\ e.late >= 0  \* made between two readings of the clock
             [] OTHER -> TRUE
        /\ book' = after /\ clean' = ok /\ uncrossed' = below
        /\ given' = [asks |-> e.asks, bids |-> e.bids]
        /\ stamp' = e.time

Update(e) ==
    LET after == Obs(e)
    IN  /\ e.panic = FALSE
        /\ after.depth = book.depth
        /\ CASE Prop = "C01" -> clean => WellFormed(after)
             [] Prop = "C02" -> clean /\ uncrossed => /\ Uncrossed(after)
                                         /\ OppositeExact(book, e.side, e.p, e.v, after)
             [] Prop = "C03" -> clean => /\ OwnExact(book, e.side, e.p, e.v, after)
                                         /\ (e.err # "") = (e.side \notin Sides)
                                         /\ e.time = stamp
             [] Prop = "C04" -> Counted(after) => AccumExact(after)
             [] Prop = "C05" -> Owned(e, given)
             [] Prop = "C54" -> e.time = stamp
             [] OTHER -> TRUE
        /\ book' = after
        /\ UNCHANGED <<clean, uncrossed, given, stamp>>

Query(e) ==
    LET d == Depth(book, e.p)
    IN  /\ e.panic = FALSE
        /\ Prop = "C06" =>
             /\ Obs(e) = book
             /\ Counted(book) => IF d[1] = "ok" THEN e.err = "" /\ e.val = d[2] ELSE e.err = d[1]
        /\ UNCHANGED <<book, clean, uncrossed, given, stamp>>

(* Books built from the rows of this one are this one, and move as it did. *)
Twin(e) ==
    /\ e.panic = FALSE
    /\ (Prop = "C44" /\ clean) => /\ \A k \in 1..Len(e.rebuilt) : e.rebuilt[k] = book
                                  /\ \A k \in 1..Len(e.moved) : e.moved[k] = book
                                  /\ \A k \in 1..Len(e.again) : e.again[k] = book
                                  /\ \A k \in 1..Len(e.errs) : e.errs[k] = e.errs[1]
    /\ UNCHANGED <<book, clean, uncrossed, given, stamp>>

Shown(e) ==
    /\ e.panic = FALSE
    /\ Prop = "C40" => /\ e.parts = Ladder(book)
                       /\ e.asks = book.asks /\ e.bids = book.bids
                       /\ e.time = stamp
    /\ UNCHANGED <<book, clean, uncrossed, given, stamp>>

Batch(e) ==
    /\ e.panic = FALSE
    /\ (Prop = "C48" /\ clean /\ uncrossed) =>
          /\ \A k \in 1..Len(e.built) : e.built[k] = book
          /\ Exchangeable(book, e.ups) => \A k \in 2..Len(e.results) : e.results[k] = e.results[1]
          /\ \A k \in 1..Len(e.errs) : e.errs[k] = ""
    /\ UNCHANGED <<book, clean, uncrossed, given, stamp>>

Mirrored(e) ==
    /\ e.panic = FALSE
    /\ Prop = "C46" => /\ [asks |-> e.b.asks, bids |-> e.b.bids, depth |-> e.b.depth] = Mirror(e.a, e.max)
                       /\ e.errA = e.errB
                       /\ \A k \in 1..Len(e.depths) : e.depths[k][1] = e.depths[k][2]
    /\ UNCHANGED <<book, clean, uncrossed, given, stamp>>

(* e.a and e.b: the same history in two price tables and volume units, as the model's numbers. *)
RepricedCall(e) ==
    /\ e.panic = FALSE
    /\ Prop = "C56" => /\ e.b = e.a
                       /\ e.errA = e.errB
                       /\ \A k \in 1..Len(e.depths) : e.depths[k][1] = e.depths[k][2]
    /\ UNCHANGED <<book, clean, uncrossed, given, stamp>>

OverlapCall(e) ==
    LET o == Overlap(e.a, e.b)
    IN  /\ e.panic = FALSE
        /\ (Prop = "C07" /\ Counted(e.a) /\ Counted(e.b)) =>
             /\ IF o[1] = "ok" THEN e.err = "" /\ e.val = o[2] /\ e.err2 = "" /\ e.val2 = o[2]
                ELSE e.err = o[1] /\ e.err2 = o[1]
             /\ e.aAfter = e.a /\ e.bAfter = e.b
        /\ UNCHANGED <<book, clean, uncrossed, given, stamp>>

Step(e) == CASE e.op = "new" -> New(e)
             [] e.op = "upd" -> Update(e)
             [] e.op = "depth" -> Query(e)
             [] e.op = "twin" -> Twin(e)
             [] e.op = "ladder" -> Shown(e)
             [] e.op = "batch" -> Batch(e)
             [] e.op = "mirror" -> Mirrored(e)
             [] e.op = "repriced" -> RepricedCall(e)
             [] e.op = "overlap" -> OverlapCall(e)

Next == i <= Len(Log) /\ Step(Log[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_vars

Accepted == PrintT(<<"VALIDATED", TLCGet("stats").diameter - 1, "OF", Len(Log)>>)
=============================================================================
