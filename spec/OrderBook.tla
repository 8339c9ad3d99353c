----------------------------- MODULE OrderBook -----------------------------
(***************************************************************************)
(* The limit order book of finmod (market/orderbook.go).                   *)
(*                                                                         *)
(* A book has two sides, each a sequence of rows <<price, volume, accum>>  *)
(* from the best price outwards, and a maximum depth.  Prices and volumes  *)
(* are positive integers here; the conformance harness maps them to floats *)
(* (prices through strictly increasing tables, because only their order    *)
(* matters, volumes through a unit).                                       *)
(*                                                                         *)
(* The state machine has one action per public call that changes a book:   *)
(* New (a snapshot replaces the book) and Update.  Depth and Overlap are   *)
(* observations.  The second half states the properties C01..C07 as        *)
(* predicates over states and steps; they are checked on the state machine *)
(* (MCBook) and on steps recorded from the code (TraceBook).               *)
(***************************************************************************)
EXTENDS Util

Price(r)  == r[1]
Volume(r) == r[2]
Accum(r)  == r[3]
Level(r)  == <<r[1], r[2]>>
Levels(rows) == [k \in 1..Len(rows) |-> Level(rows[k])]

Sides == {"ask", "bid"}
Opposite(side) == IF side = "ask" THEN "bid" ELSE "ask"

(* Better(side, x, y): x is strictly closer to the top of the side than y. *)
Better(side, x, y) == IF side = "ask" THEN x < y ELSE x > y

RowsOf(book, side) == IF side = "ask" THEN book.asks ELSE book.bids

(* ------------------------------ transitions ---------------------------- *)
Accumulate(levels) ==
    FoldLeft(LAMBDA acc, l :
        Append(acc, <<l[1], l[2], IF acc = <<>> THEN l[2] ELSE Plus(l[2], acc[Len(acc)][3])>>),
        <<>>, levels)

(* Insertion keeps rows of equal price in the given order. *)
InsertStable(side, acc, l) ==
    LET before == SelectSeq(acc, LAMBDA x : ~Better(side, l[1], x[1]))
        after  == SelectSeq(acc, LAMBDA x : Better(side, l[1], x[1]))
    IN  before \o <<l>> \o after
SortBest(side, levels) == FoldLeft(LAMBDA acc, l : InsertStable(side, acc, l), <<>>, levels)

NewSide(side, levels, depth) == Accumulate(Take(SortBest(side, levels), depth))
NewBook(asks, bids, depth) ==
    [asks |-> NewSide("ask", asks, depth), bids |-> NewSide("bid", bids, depth), depth |-> depth]

SetLevel(side, levels, p, v) ==
    LET better == SelectSeq(levels, LAMBDA l : Better(side, l[1], p))
        worse  == SelectSeq(levels, LAMBDA l : Better(side, p, l[1]))
    IN  IF v = 0 THEN better \o worse ELSE better \o <<<<p, v>>>> \o worse

(* Rows of the opposite side that survive an order at p: bids below a new ask, asks above a new bid. *)
Surviving(side, levels, p) ==
    SelectSeq(levels, LAMBDA l : IF side = "ask" THEN l[1] < p ELSE l[1] > p)

OwnAfter(book, side, p, v) == Take(SetLevel(side, Levels(RowsOf(book, side)), p, v), book.depth)
OppAfter(book, side, p, v) ==
    LET rows == Levels(RowsOf(book, Opposite(side)))
    IN  IF v = 0 THEN rows ELSE Surviving(side, rows, p)

Apply(book, side, p, v) ==
    IF side \notin Sides THEN book
    ELSE LET own == Accumulate(OwnAfter(book, side, p, v))
             opp == Accumulate(OppAfter(book, side, p, v))
         IN  [book EXCEPT !.asks = IF side = "ask" THEN own ELSE opp,
                          !.bids = IF side = "ask" THEN opp ELSE own]

(* ------------------------------ observations --------------------------- *)
(* Depth query: <<"ok", volume>>, <<"invalid", 0>> or <<"not_found", 0>>. *)
Depth(book, p) ==
    LET asks == book.asks
        bids == book.bids
        upTo(side, rows) == Sum([k \in 1..Len(rows) |->
                                IF Better(side, p, rows[k][1]) THEN 0 ELSE rows[k][2]])
    IN  IF p <= 0 THEN <<"invalid", 0>>
        ELSE IF asks # <<>> /\ Price(asks[1]) <= p /\ p <= Price(asks[Len(asks)]) THEN <<"ok", upTo("ask", asks)>>
        ELSE IF bids # <<>> /\ Price(bids[1]) >= p /\ p >= Price(bids[Len(bids)]) THEN <<"ok", upTo("bid", bids)>>
        ELSE <<"not_found", 0>>

Overlaps(a, b) == a.asks # <<>> /\ b.bids # <<>> /\ Price(a.asks[1]) < Price(b.bids[1])

(* Value of the overlap of a's asks with b's bids. *)
OverlapValue(a, b) ==
    LET asks   == SelectSeq(a.asks, LAMBDA r : Price(r) <= Price(b.bids[1]))
        bids   == SelectSeq(b.bids, LAMBDA r : Price(r) >= Price(a.asks[1]))
        cost   == Sum([k \in 1..Len(asks) |-> Product(Price(asks[k]), Volume(asks[k]))])
        volume == Sum([k \in 1..Len(asks) |-> Volume(asks[k])])
        (* fill from the lowest bid upwards: <<volume left, value>> *)
        fill   == FoldRight(LAMBDA r, acc :
                      LET q == Min2(acc[1], Volume(r)) IN <<Plus(acc[1], -q), Plus(acc[2], Product(q, Price(r)))>>,
                      bids, <<volume, 0>>)
    IN  Abs(Plus(cost, -fill[2]))

Overlap(a, b) ==
    IF Overlaps(a, b) THEN <<"ok", OverlapValue(a, b)>>
    ELSE IF Overlaps(b, a) THEN <<"ok", OverlapValue(b, a)>>
    ELSE <<"not_found", 0>>

(* ------------------------------ properties ----------------------------- *)
(* C01 *)
SideOrdered(side, rows) ==
    \A k \in 1..(Len(rows) - 1) : Better(side, Price(rows[k]), Price(rows[k+1]))
WellFormed(book) ==
    /\ SideOrdered("ask", book.asks) /\ SideOrdered("bid", book.bids)
    /\ \A s \in Sides : \A k \in 1..Len(RowsOf(book, s)) : Volume(RowsOf(book, s)[k]) # 0
    /\ Len(book.asks) <= book.depth /\ Len(book.bids) <= book.depth

(* C02 *)
Uncrossed(book) ==
    \A i \in 1..Len(book.asks), j \in 1..Len(book.bids) : Price(book.bids[j]) < Price(book.asks[i])
OppositeExact(book, side, p, v, after) ==
    side \in Sides => Levels(RowsOf(after, Opposite(side))) = OppAfter(book, side, p, v)

(* C03 *)
OwnExact(book, side, p, v, after) ==
    IF side \in Sides
    THEN Levels(RowsOf(after, side)) = OwnAfter(book, side, p, v)
    ELSE Levels(after.asks) = Levels(book.asks) /\ Levels(after.bids) = Levels(book.bids)

(* Every price and volume is one of the model's integers. *)
Counted(book) ==
    \A s \in Sides : \A k \in 1..Len(RowsOf(book, s)) :
        Abs(Price(RowsOf(book, s)[k])) < 1900000000 /\ Abs(Volume(RowsOf(book, s)[k])) < 1900000000

(* C04 *)
AccumExact(book) ==
    \A s \in Sides : RowsOf(book, s) = Accumulate(Levels(RowsOf(book, s)))

(* C05, for a snapshot of arbitrary rows *)
SnapshotExact(asks, bids, depth, book) ==
    /\ Levels(book.asks) = Take(SortBest("ask", asks), depth)
    /\ Levels(book.bids) = Take(SortBest("bid", bids), depth)

(* C40: the printed ladder, from the worst ask down to the worst bid *)
Ladder(book) == <<Reverse(book.asks), book.bids>>

(* C48: updates whose order does not matter. On every side no price is twice and *)
(* nothing is dropped and missed later: there is room, or all updates are of one *)
(* sort; and if both sides are updated, no price crosses another.                *)
ApplyAll(book, ups) == FoldLeft(LAMBDA b, u : Apply(b, u.side, u.p, u.v), book, ups)
Of(ups, side) == SelectSeq(ups, LAMBDA u : u.side = side)
Exchangeable(book, ups) ==
    /\ \A k \in 1..Len(ups) : ups[k].side \in Sides
    /\ \A j, k \in 1..Len(ups) : j # k /\ ups[j].side = ups[k].side => ups[j].p # ups[k].p
    /\ \A s \in Sides :
          LET mine == Of(ups, s)
              more == Len(SelectSeq(mine, LAMBDA u : u.v > 0))
          IN  more \in {0, Len(mine)} \/ Len(RowsOf(book, s)) + more <= book.depth
    /\ (Of(ups, "ask") # <<>> /\ Of(ups, "bid") # <<>>) =>
          LET asks == [k \in 1..Len(book.asks) |-> Price(book.asks[k])] \o [k \in 1..Len(Of(ups, "ask")) |-> Of(ups, "ask")[k].p]
              bids == [k \in 1..Len(book.bids) |-> Price(book.bids[k])] \o [k \in 1..Len(Of(ups, "bid")) |-> Of(ups, "bid")[k].p]
          IN  \A j \in 1..Len(asks), k \in 1..Len(bids) : bids[k] < asks[j]
AsUpdates(book) ==
    [k \in 1..Len(book.asks) |-> [side |-> "ask", p |-> book.asks[k][1], v |-> book.asks[k][2]]]
    \o [k \in 1..Len(book.bids) |-> [side |-> "bid", p |-> book.bids[k][1], v |-> book.bids[k][2]]]

(* C46: the mirror image of a book with prices 1..max *)
Turned(rows, max) == [k \in 1..Len(rows) |-> <<max + 1 - rows[k][1], rows[k][2], rows[k][3]>>]
Mirror(book, max) == [asks |-> Turned(book.bids, max), bids |-> Turned(book.asks, max), depth |-> book.depth]

(* C56: the book with other prices in the same order, and every volume times k *)
PricedAs(rows, f(_), k) == [j \in 1..Len(rows) |-> <<f(rows[j][1]), k * rows[j][2], k * rows[j][3]>>]
Repriced(book, f(_), k) == [asks |-> PricedAs(book.asks, f, k), bids |-> PricedAs(book.bids, f, k), depth |-> book.depth]

DistinctPrices(levels) == \A i, j \in 1..Len(levels) : i # j => levels[i][1] # levels[j][1]
(* The snapshots for which C01 and C02 promise anything. *)
CleanSnapshot(asks, bids) ==
    /\ DistinctPrices(asks) /\ DistinctPrices(bids)
    /\ \A k \in 1..Len(asks) : asks[k][2] > 0
    /\ \A k \in 1..Len(bids) : bids[k][2] > 0
UncrossedSnapshot(asks, bids) ==
    \A i \in 1..Len(asks), j \in 1..Len(bids) : bids[j][1] < asks[i][1]
============================================================================
