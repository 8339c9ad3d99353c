----------------------------- MODULE TraceStore -----------------------------
(* Judges model updates, storing as JSON and printing recorded from the code. *)
EXTENDS Store, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE_FILE)
Prop == IOEnv.PROP

VARIABLES i, val
vars == <<i, val>>
Init == i = 1 /\ val = [k \in Kinds |-> 0]

(* A case starts with known values of all four models. *)
Start(e) == e.panic = FALSE /\ val' = [k \in Kinds |-> e.vals[k]]

Update(e) ==
    LET u == Updated(e.kind, val[e.kind], e.arg, e.value)
    IN  /\ e.panic = FALSE
        /\ Prop = "C15" =>
             /\ (e.err # "") = u[1]
             /\ \A k \in Kinds : e.vals[k] = IF k = e.kind THEN u[2] ELSE val[k]
             /\ e.valueAfter = e.value
             /\ ~u[1] => e.id = e.argId
             /\ \A k \in Kinds : e.tables[k] = TableOf[k] /\ e.keys[k] = PrimaryKey
        /\ val' = [k \in Kinds |-> e.vals[k]]

(* One value through JSON: encoding and decoding succeed and give the same value. *)
RoundTrip(e) ==
    /\ e.panic = FALSE
    /\ Prop = "C16" => e.err = "" /\ e.after = e.before /\ e.source = e.before
    /\ UNCHANGED val

(* One step of a history, taken by the subject and by its restored twin. *)
Twin(e) ==
    /\ e.panic = FALSE
    /\ Prop = "C16" => e.restoreErr = "" /\ e.one = e.twin /\ e.err = e.twinErr
    /\ UNCHANGED val

Rendered(e) ==
    /\ e.panic = FALSE
    /\ Prop = "C38" =>
         /\ e.after = e.before
         /\ e.kind \in Kinds => Shows(e.text, ShownId(e.kind, e.id))
         /\ e.kind = "pair" => Shows(e.text, e.base) /\ Shows(e.text, e.quote)
    /\ UNCHANGED val

Step(e) == CASE e.op = "start" -> Start(e)
             [] e.op = "update" -> Update(e)
             [] e.op = "json" -> RoundTrip(e)
             [] e.op = "twin" -> Twin(e)
             [] e.op = "print" -> Rendered(e)

Next == i <= Len(Log) /\ Step(Log[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"VALIDATED", TLCGet("stats").diameter - 1, "OF", Len(Log)>>)
=============================================================================
