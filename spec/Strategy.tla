------------------------------ MODULE Strategy ------------------------------
(* The actions a strategy collects on a tick: five kinds of identified       *)
(* actions and a list of annotations. An entry is <<key, id, data>>; data    *)
(* stands for all other fields of the action.                                *)
EXTENDS Util

Kinds == {"create", "update", "cancel", "move", "close"}

KeyOf(x) == x[1]
IdOf(x) == x[2]
DataOf(x) == x[3]

Times(seq, d) == Cardinality({k \in 1..Len(seq) : seq[k] = d})

(* The entries of one kind after adding actions with the given data. *)
AddOK(old, new, given, issued) ==
    \E fresh \in {new \ old} : \E ids \in {{IdOf(x) : x \in fresh}} :
        /\ old \subseteq new
        /\ Cardinality(fresh) = Len(given)
        /\ \A x \in fresh : KeyOf(x) = IdOf(x)
        /\ Cardinality(ids) = Len(given)
        /\ ids \cap issued = {}
        /\ \A x \in fresh : Cardinality({y \in fresh : DataOf(y) = DataOf(x)}) = Times(given, DataOf(x))
        /\ ToSet(given) \subseteq {DataOf(x) : x \in fresh}
=============================================================================
