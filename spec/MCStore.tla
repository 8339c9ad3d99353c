------------------------------ MODULE MCStore ------------------------------
(* One model of every kind, updated with every kind of argument.             *)
EXTENDS Store, TLC, Json, IOUtils, CSV
CONSTANTS Values, WrongArgs, MaxSteps

VARIABLES val, err, hist
vars == <<val, err, hist>>
Ops == [kind : Kinds, arg : Kinds \cup WrongArgs, value : Values]
Init == val = [k \in Kinds |-> 0] /\ err = FALSE /\ hist = <<>>
Update(o) ==
    /\ Len(hist) < MaxSteps
    /\ LET u == Updated(o.kind, val[o.kind], o.arg, o.value)
       IN  err' = u[1] /\ val' = [val EXCEPT ![o.kind] = u[2]]
    /\ hist' = Append(hist, o)
Next == \E o \in Ops : Update(o)
Spec == Init /\ [][Next]_vars
StoreView == <<val, Len(hist)>>
Emit == CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.EMIT_FILE)
Done == hist'[Len(hist')]
C15Step == [][/\ err' = (Done.arg # Done.kind)
              /\ err' => val' = val
              /\ ~err' => val'[Done.kind] = Done.value
              /\ \A k \in Kinds : k # Done.kind => val'[k] = val[k]]_vars
=============================================================================
