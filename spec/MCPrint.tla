------------------------------ MODULE MCPrint ------------------------------
(* Texts of models: the identifier, possibly shortened, between other text.  *)
EXTENDS Store, TLC, Json, IOUtils, CSV
CONSTANTS PrintKinds, MaxId, Fillings

VARIABLES c, text
vars == <<c, text>>
Cases == [kind : PrintKinds, len : 0..MaxId, fill : Fillings, missing : BOOLEAN]
Id(n) == [k \in 1..n |-> 96 + k]
Init == c \in Cases /\ text = <<>>
Render == /\ text = <<>>
         /\ text' = <<73, 68, 58, 32>> \o ShownId(c.kind, Id(c.len)) \o <<32, 84>>
         /\ UNCHANGED c
Next == Render
Spec == Init /\ [][Next]_vars
Emit == CSVWrite("%1$s", <<ToJson(c)>>, IOEnv.EMIT_FILE)
C38 == text # <<>> => Shows(text, ShownId(c.kind, Id(c.len)))
                      /\ (c.kind # "position" => Shows(text, Id(c.len)))
=============================================================================
