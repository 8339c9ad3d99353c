----------------------------- MODULE TraceWire -----------------------------
(* Judges documents written and read by the code.                            *)
EXTENDS Wire, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE_FILE)
Prop == IOEnv.PROP

VARIABLE i
vars == <<i>>
Init == i = 1

(* `took` are the fields that have the value of the document, `kept` the ones *)
(* that have their old value; the two values differ in every field.           *)
ReadCall(e) ==
    LET all == FieldsOf(e.model)
        given == {FieldOf(e.model, e.names[k]) : k \in 1..Len(e.names)}
    IN  /\ e.panic = FALSE
        /\ Prop = "C52" => /\ e.err = ""
                           /\ ToSet(e.took) = given
                           /\ ToSet(e.kept) = all \ given

(* `written` are the names under which the value of their own field was found. *)
WriteCall(e) ==
    /\ e.panic = FALSE
    /\ Prop = "C52" => e.err = "" /\ ToSet(e.written) = NamesOf(e.model)

WordCall(e) ==
    /\ e.panic = FALSE
    /\ Prop = "C52" => e.word = Words[e.name]

Step(e) == CASE e.op = "read" -> ReadCall(e)
             [] e.op = "write" -> WriteCall(e)
             [] e.op = "word" -> WordCall(e)

Next == i <= Len(Log) /\ Step(Log[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"VALIDATED", TLCGet("stats").diameter - 1, "OF", Len(Log)>>)
=============================================================================
