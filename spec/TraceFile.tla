----------------------------- MODULE TraceFile -----------------------------
(* Judges saves, loads and faults on real files.  `fs` is what the files     *)
(* must contain given the successful saves and what was done to them.        *)
EXTENDS CandleFile, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE_FILE)
Prop == IOEnv.PROP
Paths == 1..4

VARIABLES i, fs
vars == <<i, fs>>
Init == i = 1 /\ fs = [p \in Paths |-> Absent]

Start(e) == e.panic = FALSE /\ fs' = [p \in Paths |-> Absent]

Save(e) ==
    /\ e.panic = FALSE
    /\ Prop = "C21" => e.err = ""
    /\ fs' = [fs EXCEPT ![e.path] = IF e.err = "" THEN File(e.candles) ELSE Unknown]

(* A write that cannot succeed: must be reported. *)
Fail(e) ==
    /\ e.panic = FALSE
    /\ Prop = "C22" => e.err # ""
    /\ fs' = [fs EXCEPT ![e.path] = Unknown]

(* The same for places outside the four files. *)
FailElsewhere(e) ==
    /\ e.panic = FALSE
    /\ Prop = "C22" => e.err # ""
    /\ UNCHANGED fs

Load(e) ==
    LET f == fs[e.path]
        want == Loaded(f)
    IN  /\ e.panic = FALSE
        /\ CASE Prop = "C21" -> IF Loadable(f) THEN e.err = "" /\ e.candles = want[2] ELSE TRUE
             [] Prop = "C22" -> IF f.state # "unknown" /\ want[1] THEN e.err # "" /\ e.candles = <<>> ELSE TRUE
        /\ UNCHANGED fs

(* The harness inserted a malformed line behind line e.at, or cut the file. *)
Damage(e) ==
    /\ e.panic = FALSE
    /\ fs' = [fs EXCEPT ![e.path] = Damaged(@, e.at)]
Tear(e) == e.panic = FALSE /\ fs' = [fs EXCEPT ![e.path] = Torn(@, e.whole, e.rest)]

(* Loading something that is not there. *)
LoadMissing(e) ==
    /\ e.panic = FALSE
    /\ Prop = "C22" => e.err # "" /\ e.candles = <<>>
    /\ UNCHANGED fs

(* Two saved files one behind the other, e.a and e.b their candles, cut behind byte e.at; e.lens are the bytes of its lines. *)
Cut(e) ==
    LET lines == e.a \o e.b
        want == Loaded(CutFile(lines, e.lens, e.at))
    IN  /\ e.panic = FALSE
        /\ Prop = "C60" =>
             /\ e.errA = "" /\ e.errB = "" /\ Len(e.lens) = Len(lines)
             /\ (e.err # "") = want[1]
             /\ e.candles = want[2]
        /\ UNCHANGED fs

Step(e) == CASE e.op = "start" -> Start(e)
             [] e.op = "save" -> Save(e)
             [] e.op = "fail" -> Fail(e)
             [] e.op = "elsewhere" -> FailElsewhere(e)
             [] e.op = "load" -> Load(e)
             [] e.op = "damage" -> Damage(e)
             [] e.op = "tear" -> Tear(e)
             [] e.op = "cut" -> Cut(e)
             [] e.op = "missing" -> LoadMissing(e)

Next == i <= Len(Log) /\ Step(Log[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"VALIDATED", TLCGet("stats").diameter - 1, "OF", Len(Log)>>)
=============================================================================
