---------------------------- MODULE MCOrderStatus ---------------------------
(* An order whose status changes by model updates and by assignment.         *)
EXTENDS OrderFlow, TLC, Json, IOUtils, CSV
CONSTANTS Statuses, Fillings, MaxSteps

VARIABLES status, filling, answer, hist
vars == <<status, filling, answer, hist>>
Ops == [op : {"update", "assign"}, status : Statuses, fill : Fillings]
         \cup [op : {"bad", "status"}, status : Statuses, fill : {0}]
Init == status = "" /\ filling = 0 /\ answer = TRUE /\ hist = <<>>
Do(o) ==
    /\ Len(hist) < MaxSteps
    /\ hist' = Append(hist, o)
    /\ status' = IF o.op = "bad" THEN status ELSE o.status
    /\ filling' = IF o.op \in {"update", "assign"} THEN o.fill ELSE filling
    /\ answer' = IsOpenStatus(status')
Next == \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars
StatusView == <<status, filling, Len(hist)>>
Emit == CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.EMIT_FILE)
C14 == answer = (status \notin {"fulfilled", "canceled"})
=============================================================================
