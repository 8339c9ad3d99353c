------------------------------- MODULE MCWire -------------------------------
(* Documents with every one or two of a model's names, read into a model.    *)
EXTENDS Wire, TLC, Json, IOUtils, CSV
CONSTANTS MaxNames

VARIABLES model, names, val, phase
vars == <<model, names, val, phase>>
Init == /\ model \in Models
        /\ names \in {s \in UNION {{{a}, {a, b}} : a, b \in NamesOf(model)} : Cardinality(s) <= MaxNames} \cup {{}, NamesOf(model)}
        /\ val = [f \in FieldsOf(model) |-> 0] /\ phase = "old"
ReadIt == phase = "old" /\ val' = Read(model, val, [n \in names |-> 1]) /\ phase' = "read" /\ UNCHANGED <<model, names>>
Next == ReadIt
Spec == Init /\ [][Next]_vars
Emit == CSVWrite("%1$s", <<ToJson([model |-> model, names |-> SetToSeq(names), layout |-> Layout[model]])>>, IOEnv.EMIT_FILE)
C52 == phase = "read" =>
    /\ \A f \in FieldsOf(model) : val[f] = IF NameOf(model, f) \in names THEN 1 ELSE 0
    /\ Read(model, [f \in FieldsOf(model) |-> 2], Written(model, val)) = val
=============================================================================
