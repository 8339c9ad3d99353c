----------------------------- MODULE MCSharing -----------------------------
(* Every short program over the calls of Sharing; values are the terms that  *)
(* produced them, so equal calls on equal values are equal by construction.  *)
EXTENDS Sharing, TLC, Json, IOUtils, CSV
CONSTANTS MaxCalls, Args

VARIABLES kinds, held, prog
vars == <<kinds, held, prog>>

(* A program starts with a series, two lists of rows and a trade. *)
Init == kinds = <<"candles", "rows", "rows", "trade">> /\ held = <<<<1>>, <<2>>, <<3>>, <<4>>>> /\ prog = <<>>

Do(op, arg, slots) ==
    LET term == <<op, arg, [k \in 1..Len(slots) |-> held[slots[k]]]>>
    IN  /\ held' = HeldAfter(held, op, slots, term)
        /\ kinds' = IF Calls[op].changes # 0 THEN kinds ELSE Append(kinds, Calls[op].out)
        /\ prog' = Append(prog, [op |-> op, arg |-> arg, slots |-> slots])

Overwrite(k) ==
    /\ held' = [held EXCEPT ![k] = <<"overwritten", Len(prog)>>]
    /\ prog' = Append(prog, [op |-> "overwrite", arg |-> 0, slots |-> <<k>>])
    /\ UNCHANGED kinds

Next == /\ Len(prog) < MaxCalls
        /\ \/ \E op \in Ops, arg \in Args : \E slots \in Bindings(op, kinds) : Do(op, arg, slots)
           \/ \E k \in 1..Len(held) : Overwrite(k)
Spec == Init /\ [][Next]_vars
Emit == Len(prog') < MaxCalls \/ CSVWrite("%1$s", <<ToJson(prog')>>, IOEnv.EMIT_FILE)

(* ------------------------------ properties ----------------------------- *)
Done == prog'[Len(prog')]
Target == IF Done.op = "overwrite" THEN Done.slots[1]
          ELSE IF Calls[Done.op].changes # 0 THEN Done.slots[Calls[Done.op].changes] ELSE 0
C42Step == [][\A k \in 1..Len(held) : k # Target => held'[k] = held[k]]_vars
Typed == Len(kinds) = Len(held)
=============================================================================
