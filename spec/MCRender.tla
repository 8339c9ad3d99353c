------------------------------ MODULE MCRender ------------------------------
(* Every kind of model printed label by label for a few values of its fields; *)
(* what was printed identifies the value of every field.                      *)
EXTENDS Render, TLC, Json, IOUtils, CSV
CONSTANTS Variants

VARIABLES kind, variant, k, shown
vars == <<kind, variant, k, shown>>

(* Some value for a field, different for different fields and variants. *)
Value(kd, v, j) ==
    LET f == LayoutOf[kd][j]
    IN  CASE f.sort = "names" -> <<10 * v + j, 500 + 10 * v + j>>
          [] f.sort = "amount" -> <<((v * 7919 + j * 104729) % 1000000) - 300000>>
          [] f.sort = "flag" -> <<v % 2>>
          [] OTHER -> <<10 * v + j>>
Rounded(x, step) == ((x + step \div 2) \div step) * step

Init == kind \in RenderKinds /\ variant \in 1..Variants /\ k = 1 /\ shown = <<>>
ShowNext ==
    /\ k <= Len(LayoutOf[kind])
    /\ LET f == LayoutOf[kind][k]
           v == Value(kind, variant, k)
       IN  shown' = Append(shown, IF f.sort = "amount" THEN <<Rounded(v[1], Steps(f.dec))>> ELSE v)
    /\ k' = k + 1 /\ UNCHANGED <<kind, variant>>
Next == ShowNext
Spec == Init /\ [][Next]_vars
Emit == k > 1 \/ CSVWrite("%1$s", <<ToJson([kind |-> kind, variant |-> variant, layout |-> LayoutOf[kind]])>>, IOEnv.EMIT_FILE)

(* ------------------------------ properties ----------------------------- *)
Fields(kd, v) == [f \in {LayoutOf[kd][j].field : j \in 1..Len(LayoutOf[kd])} |->
                    Value(kd, v, CHOOSE j \in 1..Len(LayoutOf[kd]) : LayoutOf[kd][j].field = f)]
Complete == k > Len(LayoutOf[kind])
C39 == Complete => ShowsAll(kind, Fields(kind, variant), shown)
(* No two fields of a model may be mistaken for each other. *)
C39Distinct == Complete =>
    \A i, j \in 1..Len(shown) :
       LET a == LayoutOf[kind][i] b == LayoutOf[kind][j]
       IN  (i # j /\ a.sort = b.sort /\ a.sort \notin {"flag"}) => ~ShownAs(a, Fields(kind, variant)[b.field], shown[i])
ASSUME \A kd \in RenderKinds : \A i, j \in 1..Len(LayoutOf[kd]) :
          i # j => LayoutOf[kd][i].field # LayoutOf[kd][j].field /\ LayoutOf[kd][i].label # LayoutOf[kd][j].label
=============================================================================
