----------------------------- MODULE MCOverlap -----------------------------
(* Two books side by side: every pair of uncrossed books within the bounds.  *)
EXTENDS OrderBook, TLC, Json, IOUtils, CSV
CONSTANTS MaxPrice, MaxVolume, MaxRows

VARIABLES a, b, done
vars == <<a, b, done>>

(* All sides as partial maps price -> volume, so every side arises once. *)
SideMaps == { f \in [1..MaxPrice -> 0..MaxVolume] : Cardinality({p \in 1..MaxPrice : f[p] > 0}) <= MaxRows }
RowsFrom(f) == SelectSeq([p \in 1..MaxPrice |-> <<p, f[p]>>], LAMBDA l : l[2] > 0)
Books == { NewBook(RowsFrom(s[1]), RowsFrom(s[2]), MaxRows) :
              s \in { t \in SideMaps \X SideMaps : UncrossedSnapshot(RowsFrom(t[1]), RowsFrom(t[2])) } }

Init == a \in Books /\ b \in Books /\ done = FALSE
Ask == ~done /\ done' = TRUE /\ UNCHANGED <<a, b>>
Next == Ask
Spec == Init /\ [][Next]_vars
Emit == CSVWrite("%1$s", <<ToJson(<<[op |-> "overlap", a |-> a, b |-> b]>>)>>, IOEnv.EMIT_FILE)

(* C07 on the design: symmetric, detected precisely, and only one direction can overlap. *)
C07 == /\ Overlap(a, b) = Overlap(b, a)
       /\ ~(Overlaps(a, b) /\ Overlaps(b, a))
       /\ (Overlap(a, b)[1] = "ok") <=> (Overlaps(a, b) \/ Overlaps(b, a))
=============================================================================
