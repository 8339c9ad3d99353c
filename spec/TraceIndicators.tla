-------------------------- MODULE TraceIndicators --------------------------
(* Judges indicator calls recorded from the code. Closes and ranges are      *)
(* integers; observed values come as exact numerators over the denominators  *)
(* of Indicators (e.exact, as far as they fit) and as fixed-point numbers    *)
(* with e.scale steps per unit (e.q).                                        *)
EXTENDS Indicators, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE_FILE)
Prop == IOEnv.PROP

VARIABLE i
vars == <<i>>
Init == i = 1

OnGrid(s) == \A k \in 1..Len(s) : s[k] > -1900000000

Average(e) ==
    LET n == Len(e.s) p == e.p m == Count(e.kind, n, p)
    IN  /\ e.err = ""
        /\ Len(e.q) = m
        /\ OnGrid(e.exact) /\ OnGrid(e.q)
        /\ \A k \in 1..m : Abs(e.q[k]) <= MaxOf(Map(e.s, Abs)) * e.scale + 1  \* an average is within the closes
        /\ CASE e.kind = "sma" -> \A k \in 1..Len(e.exact) : e.exact[k] = SMA(e.s, p, k)
             [] e.kind = "ema" ->
                    /\ e.exact = EMA(e.s, p, Len(e.exact))
                    /\ \A k \in 2..m : Abs(e.q[k] * (p + 1) - 2 * e.s[p + k] * e.scale - e.q[k - 1] * (p - 1)) <= p + 1
             [] e.kind = "smma" ->
                    /\ e.exact = SMMA(e.s, p, Len(e.exact))
                    /\ \A k \in 2..m : Abs(e.q[k] * p - e.s[p + k - 1] * e.scale - e.q[k - 1] * (p - 1)) <= p

Averages(e) ==
    /\ e.panic = FALSE
    /\ IF Prop = [sma |-> "C23", ema |-> "C24", smma |-> "C25"][e.kind] THEN Average(e) ELSE TRUE

(* The strength of every window in 1e-4, rounded down (lo) and up (hi). *)
Strength(e) ==
    /\ e.panic = FALSE
    /\ IF Prop = "C26"
       THEN LET m == Count("rsi", Len(e.s), e.p)
            IN  /\ e.err = ""
                /\ Len(e.lo) = m /\ Len(e.hi) = m
                /\ OnGrid(e.lo) /\ OnGrid(e.hi)
                /\ \A k \in 1..m :
                      LET up == Gains(e.s, e.p, k) down == Losses(e.s, e.p, k)
                      IN  IF up + down = 0 THEN e.lo[k] = 500000 /\ e.hi[k] = 500000
                          ELSE IF down = 0 THEN e.lo[k] = 1000000 /\ e.hi[k] = 1000000
                          ELSE IF up = 0 THEN e.lo[k] = 0 /\ e.hi[k] = 0
                          ELSE /\ e.lo[k] >= 0 /\ e.hi[k] <= 1000000
                               /\ Abs(e.lo[k] * (up + down) - 1000000 * up) <= 2 * (up + down)
       ELSE TRUE

(* e.q[k] is the volatility of the first k - 1 candles. *)
Volatility(e) ==
    /\ e.panic = FALSE
    /\ IF Prop = "C27"
       THEN /\ Len(e.q) = Len(e.r) + 1
            /\ OnGrid(e.exact) /\ OnGrid(e.q)
            /\ \A k \in 1..Len(e.q) : Abs(e.q[k]) <= 600000000 \div Max2(e.d, Abs(e.b))  \* the scale leaves that room
            /\ e.q[1] = 0 /\ e.zero
            /\ e.exact = EWV(e.r, e.b, e.d, Len(e.exact))
            /\ \A k \in 1..Len(e.r) :
                  Abs(e.q[k + 1] * e.d - e.b * e.q[k] - (e.d - e.b) * e.r[k] * e.scale) <= e.d + Abs(e.b)
       ELSE TRUE

(* The same indicator on a series and on prefixes of it, several times and   *)
(* with different memory behind the prefix; values as fingerprints.          *)
Causal(e) ==
    /\ e.panic = FALSE
    /\ IF Prop = "C30"
       THEN /\ e.before = e.after
            /\ \A k \in 1..Len(e.parts) : \A j \in 1..Len(e.parts[k]) :
                  /\ e.parts[k][j] = e.parts[k][1]
                  /\ e.kind \in {"sma", "ema", "smma", "rsi"} => IsPrefix(e.parts[k][j].values, e.full.values)
            /\ e.again = e.full
       ELSE TRUE

Arguments(e) ==
    /\ e.panic = FALSE
    /\ IF Prop = "C31" THEN (e.err # "") = ~Accepts(e.kind, e.n, e.p) /\ (IF e.err # "" THEN e.count = 0 ELSE TRUE) ELSE TRUE

Step(e) == CASE e.op = "average" -> Averages(e)
             [] e.op = "rsi" -> Strength(e)
             [] e.op = "ewv" -> Volatility(e)
             [] e.op = "causal" -> Causal(e)
             [] e.op = "args" -> Arguments(e)

Next == i <= Len(Log) /\ Step(Log[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"VALIDATED", TLCGet("stats").diameter - 1, "OF", Len(Log)>>)
=============================================================================
