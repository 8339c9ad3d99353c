----------------------------- MODULE OrderFlow -----------------------------
(* Order requests: creation, completion for a current price; orders: status. *)
EXTENDS Util

KnownTypes == {"market", "close_position", "limit", "take_profit", "stop_loss"}
AtCurrentPrice == {"market", "close_position"}

(* A request is [base, action, type, qty, price, total]; base tells whether the pair has a base symbol. *)
CreateFails(r) ==
    \/ ~r.base
    \/ r.action = "" \/ r.type = ""
    \/ r.type = "limit" /\ r.price = 0
    \/ r.qty = 0 /\ r.total = 0

Reference(r, current) == IF r.type \in AtCurrentPrice THEN current ELSE r.price

CompleteFails(r, current) ==
    \/ (r.qty = 0) = (r.total = 0)
    \/ r.qty = 0 /\ Reference(r, current) = 0

(* The completed quantity is a fraction <<n, d>>, the total an integer. *)
Completed(r, current) ==
    LET ref == Reference(r, current)
    IN  IF r.qty # 0 THEN [qty |-> <<r.qty, 1>>, total |-> r.qty * ref]
        ELSE [qty |-> <<r.total, ref>>, total |-> r.total]

Balanced(r, current, c) == c.qty[1] * Reference(r, current) = c.total * c.qty[2]

(* C57: the same order by quantity and by total, and k times it. *)
ByQuantity(r, q) == [r EXCEPT !.qty = q, !.total = 0]
ByTotal(r, t) == [r EXCEPT !.qty = 0, !.total = t]
SameOrder(a, b) == a.qty[1] * b.qty[2] = b.qty[1] * a.qty[2] /\ a.total = b.total
TimesOrder(k, a) == [qty |-> <<k * a.qty[1], a.qty[2]>>, total |-> k * a.total]

IsOpenStatus(s) == s \notin {"fulfilled", "canceled"}
=============================================================================
