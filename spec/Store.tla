------------------------------- MODULE Store -------------------------------
(* Stored models: replacing one by model update, keeping it as JSON, showing *)
(* it as text.  Values are opaque (numbers of distinct values).              *)
EXTENDS Util

Kinds == {"order", "trade", "position", "annotation"}
TableOf == [order |-> "orders", trade |-> "trades", position |-> "positions", annotation |-> "annotations"]
PrimaryKey == "id"

(* Result of updating a model: <<error?, value>>. *)
Updated(kind, value, argKind, argValue) ==
    IF argKind = kind THEN <<FALSE, argValue>> ELSE <<TRUE, value>>

(* text shows the given part, both as sequences of character codes. *)
Shows(text, part) ==
    IF part = <<>> THEN TRUE
    ELSE TRUE = \E k \in 1..(Len(text) - Len(part) + 1) :
                  text[k] = part[1] /\ SubSeq(text, k, k + Len(part) - 1) = part

(* How much of its identifier a model must show. *)
ShownId(kind, id) == IF kind = "position" THEN Take(id, 8) ELSE id
=============================================================================
