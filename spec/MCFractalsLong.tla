--------------------------- MODULE MCFractalsLong ---------------------------
(* Longer series in which lows mirror highs.                                 *)
EXTENDS MCFractals
NextLong == \E h \in Highs : Arrive(h, 20 - h)
SpecLong == Init /\ [][NextLong]_vars
=============================================================================
