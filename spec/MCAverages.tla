----------------------------- MODULE MCAverages -----------------------------
(* The averages computed while candles arrive one by one: a sliding sum and  *)
(* one state per recurrence, against the declarative definitions.            *)
EXTENDS Indicators, TLC, Json, IOUtils, CSV
CONSTANTS Closes, MaxLen, Periods

VARIABLES s, p, window, sma, ema, smma
vars == <<s, p, window, sma, ema, smma>>

Init == s = <<>> /\ p \in Periods /\ window = 0 /\ sma = <<>> /\ ema = <<>> /\ smma = <<>>

Arrive(c) ==
    /\ Len(s) < MaxLen
    /\ s' = Append(s, c)
    /\ window' = window + c - (IF Len(s) >= p THEN s[Len(s) - p + 1] ELSE 0)
    /\ sma' = IF Len(s') >= p THEN Append(sma, window') ELSE sma
    /\ ema' = IF Len(s) >= p
              THEN Append(ema, 2 * c * p * Pow(p + 1, Len(ema)) + (IF ema = <<>> THEN sma[1] ELSE ema[Len(ema)]) * (p - 1))
              ELSE ema
    /\ smma' = IF Len(s') < p THEN smma
               ELSE IF Len(s') = p THEN <<window'>>
               ELSE Append(smma, smma[Len(smma)] * (p - 1) + c * Pow(p, Len(smma)))
    /\ UNCHANGED p

Next == \E c \in Closes : Arrive(c)
Spec == Init /\ [][Next]_vars
Emit == Len(s') < MaxLen \/ CSVWrite("%1$s", <<ToJson([s |-> s', p |-> p])>>, IOEnv.EMIT_FILE)

(* ------------------------------ properties ----------------------------- *)
Ready == Accepts("sma", Len(s), p)
C23 == IF Ready THEN Len(sma) = Count("sma", Len(s), p) /\ \A k \in 1..Len(sma) : sma[k] = SMA(s, p, k)
       ELSE sma = <<>>
C24 == IF Ready THEN Len(ema) = Count("ema", Len(s), p) /\ ema = EMA(s, p, Len(ema)) ELSE ema = <<>>
C25 == IF Ready THEN Len(smma) = Count("smma", Len(s), p) /\ smma = SMMA(s, p, Len(smma)) ELSE smma = <<>>
(* An average lies between the least and the largest close it has seen. *)
Between == Ready => \A k \in 1..Len(s) :
    /\ k <= Len(sma) => MinOf(s) * p <= sma[k] /\ sma[k] <= MaxOf(s) * p
    /\ k <= Len(ema) => MinOf(s) * p * Pow(p + 1, k) <= ema[k] /\ ema[k] <= MaxOf(s) * p * Pow(p + 1, k)
    /\ k <= Len(smma) => MinOf(s) * Pow(p, k) <= smma[k] /\ smma[k] <= MaxOf(s) * Pow(p, k)
(* With period 1 every average is the close itself. *)
Identity == p = 1 => sma = s /\ smma = s /\ (s # <<>> => Len(ema) = Len(s) - 1)
C30Step == [][/\ IsPrefix(sma, sma') /\ IsPrefix(ema, ema') /\ IsPrefix(smma, smma')]_vars
=============================================================================
