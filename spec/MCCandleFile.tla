---------------------------- MODULE MCCandleFile ----------------------------
(* Saves, loads, failing writes, torn and damaged files over several paths.  *)
EXTENDS CandleFile, TLC, Json, IOUtils, CSV
CONSTANTS Paths, MaxLen, DamageKinds, MaxSteps

VARIABLES fs, saved, res, hist
vars == <<fs, saved, res, hist>>
Candles(n, v) == [k \in 1..n |-> <<v, k, v, k, v, k>>]
Ops == [op : {"save"}, path : Paths, len : 0..MaxLen, at : {0}, kind : {""}]
        \cup [op : {"fail"}, path : Paths, len : 1..MaxLen, at : 0..1, kind : {""}]
        \cup [op : {"load"}, path : Paths, len : {0}, at : {0}, kind : {""}]
        \cup [op : {"damage"}, path : Paths, len : {0}, at : 0..MaxLen, kind : DamageKinds]
        \cup [op : {"tear"}, path : Paths, len : {0}, at : 0..(2 * MaxLen), kind : {""}]

(* saved: what the caller may rely on; "lost" once the file was failed, torn or damaged. *)
Init == fs = [p \in Paths |-> Absent] /\ saved = [p \in Paths |-> Absent] /\ res = <<FALSE, <<>>>> /\ hist = <<>>
Do(o) ==
    /\ Len(hist) < MaxSteps
    /\ hist' = Append(hist, o)
    /\ LET f == fs[o.path]
           new == Candles(o.len, Len(hist) + 1)
       IN CASE o.op = "save" -> fs' = [fs EXCEPT ![o.path] = File(new)] /\ saved' = [saved EXCEPT ![o.path] = File(new)] /\ UNCHANGED res
            [] o.op = "fail" -> fs' = [fs EXCEPT ![o.path] = Unknown] /\ saved' = [saved EXCEPT ![o.path] = Unknown] /\ UNCHANGED res
            [] o.op = "load" -> f.state # "unknown" /\ res' = Loaded(f) /\ UNCHANGED <<fs, saved>>
            [] o.op = "damage" -> /\ o.at <= Len(f.lines)
                                  /\ fs' = [fs EXCEPT ![o.path] = Damaged(f, o.at)]
                                  /\ saved' = [saved EXCEPT ![o.path] = Unknown] /\ UNCHANGED res
            [] o.op = "tear" -> /\ IF Loadable(f) THEN o.at < 2 * Len(f.lines) ELSE f.state \in {"unknown", "spoiled"} /\ o.at = 0
                                /\ fs' = [fs EXCEPT ![o.path] = Torn(f, o.at \div 2, o.at % 2 = 1)]
                                /\ saved' = [saved EXCEPT ![o.path] = Unknown] /\ UNCHANGED res
Next == \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars
FileView == <<fs, saved, Len(hist)>>
Emit == CSVWrite("%1$s", <<ToJson(hist')>>, IOEnv.EMIT_FILE)
Done == hist'[Len(hist')]
C21Step == [][/\ Done.op = "load" /\ saved[Done.path].state = "file" => res' = <<FALSE, saved[Done.path].lines>>
              /\ \A p \in Paths : p # Done.path => fs'[p] = fs[p]]_vars
C22Step == [][Done.op = "load" /\ ~Loadable(fs[Done.path]) => res' = <<TRUE, <<>>>>]_vars
=============================================================================
