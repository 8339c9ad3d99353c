----------------------------- MODULE MCStrategy -----------------------------
(* Collecting actions on two collections, with every small batch and every   *)
(* way the given actions may already carry an identifier.                    *)
EXTENDS Strategy, TLC, Json, IOUtils, CSV
CONSTANTS Objects, Sizes, Carried, MaxSteps, KindsUsed

VARIABLES acts, notes, issued, data, hist
vars == <<acts, notes, issued, data, hist>>

Init == /\ acts = [o \in Objects |-> [k \in KindsUsed |-> {}]]
        /\ notes = [o \in Objects |-> <<>>]
        /\ issued = {} /\ data = 0 /\ hist = <<>>

Record(op, o, k, n, c) == hist' = Append(hist, [op |-> op, obj |-> o, kind |-> k, n |-> n, carry |-> c])

Add(o, k, n, c) ==
    LET next == Cardinality(issued)
        new == {<<next + j, next + j, data + j>> : j \in 1..n}
    IN  /\ acts' = [acts EXCEPT ![o][k] = @ \cup new]
        /\ issued' = issued \cup {IdOf(x) : x \in new}
        /\ data' = data + n
        /\ Record("add", o, k, n, c) /\ UNCHANGED notes

Annotate(o, n) ==
    /\ notes' = [notes EXCEPT ![o] = @ \o [j \in 1..n |-> data + j]]
    /\ data' = data + n
    /\ Record("annotate", o, "note", n, "none") /\ UNCHANGED <<acts, issued>>

(* A created annotation takes an identifier and is kept by the caller. *)
Create == /\ issued' = issued \cup {Cardinality(issued) + 1}
          /\ Record("create", 1, "note", 1, "none") /\ UNCHANGED <<acts, notes, data>>

Next == /\ Len(hist) < MaxSteps
        /\ \/ \E o \in Objects, k \in KindsUsed, n \in Sizes, c \in Carried : Add(o, k, n, c)
           \/ \E o \in Objects, n \in Sizes : Annotate(o, n)
           \/ Create
Spec == Init /\ [][Next]_vars
Emit == Len(hist') < MaxSteps \/ CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.EMIT_FILE)

(* ------------------------------ properties ----------------------------- *)
Entries == UNION {UNION {acts[o][k] : k \in KindsUsed} : o \in Objects}
C32 == /\ \A x \in Entries : KeyOf(x) = IdOf(x)
       /\ \A x, y \in Entries : (IdOf(x) = IdOf(y)) => x = y
       /\ {IdOf(x) : x \in Entries} \subseteq issued
C32Step == [][\A o \in Objects : \A k \in KindsUsed :
                 LET h == hist'[Len(hist')]
                 IN  IF h.op = "add" /\ h.obj = o /\ h.kind = k
                     THEN AddOK(acts[o][k], acts'[o][k], [j \in 1..h.n |-> data + j], issued)
                     ELSE acts'[o][k] = acts[o][k]]_vars
C33Step == [][\A o \in Objects : IsPrefix(notes[o], notes'[o])]_vars
=============================================================================
