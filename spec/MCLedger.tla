------------------------------ MODULE MCLedger ------------------------------
(* Several positions, their copies and the trades they list.  The list of a  *)
(* position belongs to it alone, however it came into being.                 *)
EXTENDS Util, TLC, Json, IOUtils, CSV
CONSTANTS Slots, Starts, MaxOps

VARIABLES pos, ghost, hist
vars == <<pos, ghost, hist>>

None == [live |-> FALSE, open |-> FALSE, lots |-> 0, trades |-> <<>>]
FreshIds(n) == [k \in 1..n |-> 10 * (Len(hist) + 1) + k]
Ops == [op : {"open"}, k : Slots, n : Starts, j : {0}, how : {""}]
         \cup [op : {"add", "sub", "over", "rest", "slack"}, k : Slots, n : {1}, j : {0}, how : {""}]
         \cup [op : {"copy"}, k : Slots, n : {0}, j : Slots, how : {"update", "assign", "json"}]

Init == pos = [k \in Slots |-> None] /\ ghost = [k \in Slots |-> <<>>] /\ hist = <<>>

Do(o) ==
    /\ Len(hist) < MaxOps
    /\ o.op = "copy" => o.k # o.j /\ pos[o.k].live
    /\ o.op \in {"add", "sub", "over", "rest", "slack"} => pos[o.k].live
    /\ hist' = Append(hist, o)
    /\ LET p == pos[o.k]
           id == FreshIds(1)[1]
       IN CASE o.op = "open" -> /\ pos' = [pos EXCEPT ![o.k] = [live |-> TRUE, open |-> TRUE, lots |-> o.n, trades |-> FreshIds(o.n)]]
                                /\ ghost' = [ghost EXCEPT ![o.k] = FreshIds(o.n)]
            [] o.op = "copy" -> /\ pos' = [pos EXCEPT ![o.j] = p]
                                /\ ghost' = [ghost EXCEPT ![o.j] = ghost[o.k]]
            [] o.op = "add" /\ p.open -> /\ pos' = [pos EXCEPT ![o.k] = [p EXCEPT !.lots = p.lots + 1, !.trades = Append(p.trades, id)]]
                                         /\ ghost' = [ghost EXCEPT ![o.k] = Append(ghost[o.k], id)]
            [] o.op = "sub" /\ p.open -> /\ pos' = [pos EXCEPT ![o.k] = [p EXCEPT !.lots = p.lots - 1, !.open = p.lots > 1, !.trades = Append(p.trades, id)]]
                                         /\ ghost' = [ghost EXCEPT ![o.k] = Append(ghost[o.k], id)]
            (* all that is left, or a little more than that, closes the position *)
            [] o.op \in {"rest", "slack"} /\ p.open -> /\ pos' = [pos EXCEPT ![o.k] = [p EXCEPT !.lots = 0, !.open = FALSE, !.trades = Append(p.trades, id)]]
                                                      /\ ghost' = [ghost EXCEPT ![o.k] = Append(ghost[o.k], id)]
            [] OTHER -> UNCHANGED <<pos, ghost>>

Next == \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars
LedgerView == <<pos, ghost, Len(hist)>>
Emit == Len(hist') < MaxOps \/ CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.EMIT_FILE)

Done == hist'[Len(hist')]
C10 == \A k \in Slots : pos[k].trades = ghost[k]
Target == IF Done.op = "copy" THEN Done.j ELSE Done.k
C10Step == [][\A k \in Slots : k # Target => pos'[k] = pos[k]]_vars
=============================================================================
