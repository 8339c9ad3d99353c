----------------------------- MODULE MCFractals -----------------------------
(* Fractals found while candles arrive one by one: candidates wait for two   *)
(* lower candles and are dropped by a higher one.                            *)
EXTENDS Fractals, TLC, Json, IOUtils, CSV
CONSTANTS Highs, Lows, MaxLen

VARIABLES s, pending, found
vars == <<s, pending, found>>

Init == s = <<>> /\ pending = {} /\ found = {}

Advance(set, c) == {[x EXCEPT !.lower = IF Level(c, x.type) < Level(s[x.k], x.type) THEN @ + 1 ELSE @] :
                      x \in {y \in set : Level(c, y.type) <= Level(s[y.k], y.type)}}
Candidate(q, type) == LET k == Len(q) IN
    k >= 3 /\ Level(q[k - 1], type) < Level(q[k], type) /\ Level(q[k - 2], type) < Level(q[k], type)

Arrive(h, l) ==
    LET c == <<60 * (Len(s) + 1), h, l>>
        moved == Advance(pending, c)
        done == {x \in moved : x.lower = 2}
    IN  /\ Len(s) < MaxLen
        /\ s' = Append(s, c)
        /\ found' = found \cup {<<T(s[x.k]), Price(s[x.k], x.type), x.type>> : x \in done}
        /\ pending' = (moved \ done) \cup {[k |-> Len(s) + 1, type |-> type, lower |-> 0] :
                                              type \in {y \in {"up", "down"} : Candidate(s', y)}}

Next == \E h \in Highs, l \in Lows : Arrive(h, l)
Spec == Init /\ [][Next]_vars
Emit == Len(s') < MaxLen \/ CSVWrite("%1$s", <<ToJson([s |-> s'])>>, IOEnv.EMIT_FILE)

(* ------------------------------ properties ----------------------------- *)
C28 == /\ found = AllFractals(s)
       /\ Len(s) < 5 => found = {}
C29Step == [][found \subseteq found']_vars
(* Two fractals in the same direction never sit on adjacent candles. *)
Apart == \A f, g \in found : (f[3] = g[3] /\ f # g) => Abs(f[1] - g[1]) >= 120
=============================================================================
