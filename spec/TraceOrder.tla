----------------------------- MODULE TraceOrder -----------------------------
(* Judges order requests and order statuses recorded from the code.          *)
EXTENDS OrderFlow, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE_FILE)
Prop == IOEnv.PROP

VARIABLES i, status
vars == <<i, status>>
Init == i = 1 /\ status = ""

(* Creation: e.req are the arguments, e.got the fields of the result (same coding). *)
Create(e) ==
    /\ e.panic = FALSE
    /\ Prop = "C13" =>
         /\ (e.err # "") = CreateFails(e.req)
         /\ e.err = "" => e.got = e.req /\ e.same
    /\ UNCHANGED status

(* Completion: qty/total zero-ness and amounts of the receiver are e.req; byRef is the *)
(* resulting quantity times the reference price, in units of the total.                *)
Complete(e) ==
    LET ref == Reference(e.req, e.cur)
    IN  /\ e.panic = FALSE
        /\ Prop = "C13" =>
             /\ (e.err # "") = CompleteFails(e.req, e.cur)
             /\ e.before = e.after
             /\ e.err = "" =>
                  /\ e.restGot = e.rest
                  /\ IF e.req.qty # 0
                     THEN e.gotQty = e.req.qty /\ e.gotTotal = e.req.qty * ref
                     ELSE e.gotTotal = e.req.total
                          /\ (IF e.req.type \in AtCurrentPrice THEN e.byCurrent ELSE e.byPrice) = e.req.total
    /\ UNCHANGED status

(* Completing a completed request: only acceptance is judged; e.req has 1 for a non-zero amount. *)
Again(e) ==
    /\ e.panic = FALSE
    /\ Prop = "C13" => (e.err # "") = CompleteFails(e.req, e.cur)
    /\ UNCHANGED status

(* e.a by quantity, e.b by the same total, e.c and e.d e.k times as much, with another action, pair, *)
(* take-profit and stop-loss, and for orders at their own price another current price.               *)
Agree(e) ==
    /\ e.panic = FALSE
    /\ Prop = "C57" =>
         /\ \A x \in {e.a, e.b, e.c, e.d} : x.err = "" /\ x.qty > -1000000000 /\ x.total > -1000000000
         /\ e.b = e.a
         /\ e.c.qty = e.k * e.a.qty /\ e.c.total = e.k * e.a.total
         /\ e.d = e.c
    /\ UNCHANGED status

(* The status follows the accepted updates; an update with something else does not count. *)
Order(e) ==
    LET s == IF e.kind = "bad" THEN status ELSE e.status
    IN  /\ e.panic = FALSE
        /\ Prop = "C14" => e.open = IsOpenStatus(s) /\ e.again = e.open
        /\ status' = s

Step(e) == CASE e.op = "create" -> Create(e)
             [] e.op = "complete" -> Complete(e)
             [] e.op = "agree" -> Agree(e)
             [] e.op = "again" -> Again(e)
             [] e.op = "order" -> Order(e)

Next == i <= Len(Log) /\ Step(Log[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"VALIDATED", TLCGet("stats").diameter - 1, "OF", Len(Log)>>)
=============================================================================
