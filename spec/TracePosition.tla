--------------------------- MODULE TracePosition ---------------------------
(* Judges trades executed on real positions.  `pos` is the observed position *)
(* after the previous line; `cash` and `net` account for the accepted trades. *)
EXTENDS Position, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE_FILE)
Prop == IOEnv.PROP

VARIABLES i, pos, cash, net, lists
vars == <<i, pos, cash, net, lists>>
NoPos == [type |-> "", pair |-> 0, open |-> FALSE]

Init == i = 1 /\ pos = NoPos /\ cash = 0 /\ net = 0 /\ lists = <<>>

(* C08 on observations: the cash and quantity in an open position. *)
Accounted(c, n, obs) == obs.open => obs.basis = c /\ obs.qty = n

Open(e) ==
    /\ e.panic = FALSE
    /\ CASE Prop = "C08" -> Accounted(e.t.price * e.t.qty, e.t.qty, e.obs) /\ e.obs.open
         [] Prop = "C09" -> e.obs.open /\ e.obs.type = TypeOf(e.t.action) /\ e.obs.pair = e.t.pair /\ e.obs.qty = e.t.qty
         [] OTHER -> TRUE
    /\ pos' = e.obs /\ cash' = e.t.price * e.t.qty /\ net' = e.t.qty
    /\ UNCHANGED lists

Modify(e) ==
    LET c == cash + CashIn(pos.type, e.t)
        n == net + QtyIn(pos.type, e.t)
        took == e.err = "" /\ pos.open
    IN  /\ e.panic = FALSE
        /\ CASE Prop = "C08" -> /\ (took /\ e.obs.open) => Accounted(c, n, e.obs)
                                /\ (took /\ ~e.obs.open) => e.obs.profit = ProfitOf(pos.type, cash, net, e.t.price)
                                /\ (~took /\ pos.open) => Accounted(cash, net, e.obs)
             [] Prop = "C09" -> LifecycleStep(pos, e.t, e.tol, e.err # "", e.obs)
             [] OTHER -> TRUE
        /\ pos' = e.obs
        /\ IF took /\ e.obs.open THEN cash' = c /\ net' = n ELSE UNCHANGED <<cash, net>>
        /\ UNCHANGED lists

(* C11: what the position says against what closing a clone of it gives. *)
Unreal(e) ==
    /\ e.panic = FALSE
    /\ Prop = "C11" => e.fp = pos.fp /\ (e.closed => e.diff = 0)
    /\ UNCHANGED <<pos, cash, net, lists>>

(* C10: after every line the lists of all positions are known. *)
Lists(e) ==
    LET before == IF e.first THEN [k \in 1..Len(e.lists) |-> <<>>] ELSE lists
        expected == CASE e.kind = "open" -> [before EXCEPT ![e.k] = <<e.id>>]
                      [] e.kind = "copy" -> [before EXCEPT ![e.j] = before[e.k]]
                      [] e.kind = "trade" -> IF e.err = "" THEN [before EXCEPT ![e.k] = Append(@, e.id)] ELSE before
    IN  /\ e.panic = FALSE
        /\ Prop = "C10" => e.lists = expected
        /\ lists' = e.lists
        /\ UNCHANGED <<pos, cash, net>>

BornCall(e) ==
    /\ e.panic = FALSE
    /\ Prop = "C41" => Born(e.t, e) /\ ~e.dup /\ e.after = e.before
    /\ UNCHANGED <<pos, cash, net, lists>>

Live(e) ==
    /\ e.panic = FALSE
    /\ Prop = "C41" => e.still = e.given /\ e.frameAfter = e.frame
    /\ UNCHANGED <<pos, cash, net, lists>>

MirrorCall(e) ==
    /\ e.panic = FALSE
    /\ Prop = "C45" => /\ Mirrored(e.a, e.b)
                       /\ e.errB = e.errA /\ e.tradesB = e.tradesA
                       /\ \A k \in 1..Len(e.unreal) : e.unreal[k][1] > -1900000000 /\ e.unreal[k][2] = -e.unreal[k][1]
    /\ UNCHANGED <<pos, cash, net, lists>>

OnGrid(o) == o.qty > -1900000000 /\ o.basis > -1900000000 /\ o.close > -1900000000 /\ o.profit > -1900000000

SplitCall(e) ==
    /\ e.panic = FALSE
    /\ Prop = "C49" => /\ OnGrid(e.a) /\ OnGrid(e.b)
                       /\ Sum(e.parts) = e.t.qty
                       /\ \A k \in 1..Len(e.errs) : e.errs[k] = e.err
                       /\ SamePosition(e.a, e.b)
    /\ UNCHANGED <<pos, cash, net, lists>>

RescaledCall(e) ==
    /\ e.panic = FALSE
    /\ Prop = "C50" => /\ OnGrid(e.a) /\ OnGrid(e.b)
                       /\ e.errB = e.errA
                       /\ Raised(e.a, e.b, e.by)
                       /\ \A k \in 1..Len(e.unreal) : e.unreal[k][1] > -1900000000 /\ e.unreal[k][2] = e.unreal[k][1]
    /\ UNCHANGED <<pos, cash, net, lists>>

(* e.ts and e.us: the same trades in two orders; e.end closes both positions. *)
ReorderedCall(e) ==
    /\ e.panic = FALSE
    /\ (Prop = "C55" /\ Reordered(e.ts, e.us)) =>
         /\ OnGrid(e.a) /\ OnGrid(e.b) /\ OnGrid(e.closedA) /\ OnGrid(e.closedB)
         /\ \A k \in 1..Len(e.errs) : e.errs[k] = ""
         /\ e.a.open /\ ~e.closedA.open
         /\ SamePosition(e.a, e.b) /\ SamePosition(e.closedA, e.closedB)
    /\ UNCHANGED <<pos, cash, net, lists>>

NewTrade(e) ==
    /\ e.panic = FALSE
    /\ Prop = "C12" =>
         /\ e.fee = IF e.action = "buy" THEN e.cost - e.price * e.qty ELSE e.price * e.qty - e.cost
         /\ e.gotPrice = e.price /\ e.gotQty = e.qty /\ e.gotCost = e.cost
         /\ e.got = e.given
    /\ UNCHANGED <<pos, cash, net, lists>>

Step(e) == CASE e.op = "open" -> Open(e)
             [] e.op = "mod" -> Modify(e)
             [] e.op = "unreal" -> Unreal(e)
             [] e.op = "lists" -> Lists(e)
             [] e.op = "born" -> BornCall(e)
             [] e.op = "live" -> Live(e)
             [] e.op = "mirror" -> MirrorCall(e)
             [] e.op = "split" -> SplitCall(e)
             [] e.op = "rescaled" -> RescaledCall(e)
             [] e.op = "reordered" -> ReorderedCall(e)
             [] e.op = "trade" -> NewTrade(e)

Next == i <= Len(Log) /\ Step(Log[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"VALIDATED", TLCGet("stats").diameter - 1, "OF", Len(Log)>>)
=============================================================================
