--------------------------- MODULE TraceStrategy ---------------------------
(* Judges calls on strategy actions recorded from the code. After every call *)
(* the log shows the whole content of the collection it worked on.           *)
EXTENDS Strategy, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE_FILE)
Prop == IOEnv.PROP

VARIABLES i, acts, notes, issued, named
vars == <<i, acts, notes, issued, named>>
Objects == 1..2
Init == /\ i = 1
        /\ acts = [o \in Objects |-> [k \in Kinds |-> {}]]
        /\ notes = [o \in Objects |-> <<>>]
        /\ issued = {} /\ named = {}

Content(e) == [k \in Kinds |-> ToSet(e.acts[k])]
Sound(e) == \A k \in Kinds : Len(e.acts[k]) = Cardinality(ToSet(e.acts[k]))

(* A new collection, possibly with entries its owner put there. *)
Start(e) ==
    /\ e.panic = FALSE
    /\ acts' = [acts EXCEPT ![e.obj] = Content(e)]
    /\ notes' = [notes EXCEPT ![e.obj] = e.notes]
    /\ issued' = IF e.obj = 1 THEN {} ELSE issued
    /\ named' = IF e.obj = 1 THEN {} ELSE named

Add(e) ==
    /\ e.panic = FALSE
    /\ Prop = "C32" =>
          /\ e.before = e.after
          /\ Sound(e)
          /\ \A k \in Kinds : IF k = e.kind THEN AddOK(acts[e.obj][k], ToSet(e.acts[k]), e.given, issued)
                              ELSE ToSet(e.acts[k]) = acts[e.obj][k]
          /\ e.notes = notes[e.obj]
    /\ acts' = [acts EXCEPT ![e.obj] = Content(e)]
    /\ issued' = issued \cup {IdOf(x) : x \in Content(e)[e.kind] \ acts[e.obj][e.kind]}
    /\ UNCHANGED <<notes, named>>

Annotate(e) ==
    /\ e.panic = FALSE
    /\ Prop = "C32" => Sound(e) /\ Content(e) = acts[e.obj]
    /\ Prop = "C33" => e.notes = notes[e.obj] \o e.given /\ e.before = e.after
    /\ notes' = [notes EXCEPT ![e.obj] = e.notes]
    /\ acts' = [acts EXCEPT ![e.obj] = Content(e)]
    /\ UNCHANGED <<issued, named>>

(* The caller went on to use the values it had passed. *)
Look(e) ==
    /\ e.panic = FALSE
    /\ Prop = "C32" => Sound(e) /\ Content(e) = acts[e.obj]
    /\ Prop = "C33" => e.notes = notes[e.obj]
    /\ UNCHANGED <<acts, notes, issued, named>>

(* NewAnnotation: id 0 stands for no identifier. *)
Create(e) ==
    /\ e.panic = FALSE
    /\ Prop = "C33" =>
          /\ e.got = e.want
          /\ e.id # 0 /\ e.id \notin named
    /\ named' = named \cup {e.id}
    /\ UNCHANGED <<acts, notes, issued>>

(* Many additions or creations at once: only counted. *)
Bulk(e) ==
    /\ e.panic = FALSE
    /\ (Prop = "C32" /\ e.what = "add") => e.stored = e.n /\ e.distinct = e.n
    /\ (Prop = "C33" /\ e.what = "create") => e.distinct = e.n
    /\ UNCHANGED <<acts, notes, issued, named>>

Step(e) == CASE e.op = "start" -> Start(e)
             [] e.op = "add" -> Add(e)
             [] e.op = "annotate" -> Annotate(e)
             [] e.op = "look" -> Look(e)
             [] e.op = "create" -> Create(e)
             [] e.op = "bulk" -> Bulk(e)

Next == i <= Len(Log) /\ Step(Log[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"VALIDATED", TLCGet("stats").diameter - 1, "OF", Len(Log)>>)
=============================================================================
