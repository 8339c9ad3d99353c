---------------------------- MODULE TraceSharing ----------------------------
(* Judges programs executed on the code.  Every line has the fingerprints of *)
(* everything the program holds after the call (e.held); `held` are those    *)
(* after the previous line and `known` the results seen so far.              *)
EXTENDS Sharing, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE_FILE)
Prop == IOEnv.PROP

VARIABLES i, held, known
vars == <<i, held, known>>
Init == i = 1 /\ held = <<>> /\ known = <<>>

Start(e) == e.panic = FALSE /\ held' = e.held /\ known' = <<>>

Key(e) == <<e.op, e.arg, [k \in 1..Len(e.slots) |-> held[e.slots[k]]]>>
Recall(key) == SelectSeq(known, LAMBDA x : x[1] = key)

Made(e) ==
    LET key == Key(e)
        value == IF Calls[e.op].changes # 0 THEN e.held[e.slots[Calls[e.op].changes]] ELSE e.held[Len(e.held)]
        before == Recall(key)
    IN  /\ e.panic = FALSE
        /\ Prop = "C42" => /\ e.held = HeldAfter(held, e.op, e.slots, value)
                           /\ \A k \in 1..Len(before) : before[k][2] = <<value, e.err>>
        /\ held' = e.held
        /\ known' = Append(known, <<key, <<value, e.err>>>>)

Overwritten(e) ==
    /\ e.panic = FALSE
    /\ Prop = "C42" => e.held = [held EXCEPT ![e.slots[1]] = e.held[e.slots[1]]]
    /\ held' = e.held
    /\ UNCHANGED known

(* Calls made one after the other (seq), and once more (par): by several     *)
(* goroutines at the same time, or by a process that did nothing before.     *)
AtOnce(e) ==
    /\ e.panic = FALSE
    /\ Prop = "C42" => /\ e.held = held
                       /\ \A k \in 1..Len(e.par) : e.par[k] = e.seq
    /\ UNCHANGED <<held, known>>

Step(e) == CASE e.op = "start" -> Start(e)
             [] e.op = "overwrite" -> Overwritten(e)
             [] e.op \in {"parallel", "elsewhere"} -> AtOnce(e)
             [] OTHER -> Made(e)

Next == i <= Len(Log) /\ Step(Log[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"VALIDATED", TLCGet("stats").diameter - 1, "OF", Len(Log)>>)
=============================================================================
