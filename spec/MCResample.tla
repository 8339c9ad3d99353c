----------------------------- MODULE MCResample -----------------------------
(* The resampling algorithm, candle by candle, against the declarative       *)
(* result, for every small series with every gap pattern.                    *)
EXTENDS Resample, TLC, Json, IOUtils, CSV
CONSTANTS Starts, Spacings, Intervals, Slots, Shapes

VARIABLES s, n, k, head, bucket, out, phase
vars == <<s, n, k, head, bucket, out, phase>>

Candle(t, i, shape) ==
    CASE shape = "up" -> <<t, 10 + i, 12 + i, 9 + i, 11 + i, i>>
      [] shape = "down" -> <<t, 20 - i, 21 - i, 18 - i, 19 - i, 2 * i + 1>>
      [] shape = "zigzag" -> <<t, 10 + (i % 2) * 5, 16 + (i % 3), 5 - (i % 2), 8 + (i % 4), 7>>

(* Slot 0 is always there; any of the other slots may be missing. *)
Series(start, d, present, shape) ==
    LET slots == SelectSeq([j \in 1..(Slots + 1) |-> j - 1], LAMBDA j : j = 0 \/ j \in present)
    IN  [i \in 1..Len(slots) |-> Candle(60 * (start + d * slots[i]), i, shape)]

Init == /\ \E start \in Starts, d \in Spacings, present \in SUBSET (1..Slots), shape \in Shapes : s = Series(start, d, present, shape)
        /\ n \in Intervals \cup {0, -1}
        /\ k = 0 /\ head = 0 /\ bucket = 0 /\ out = <<>> /\ phase = "call"

Call == /\ phase = "call"
        /\ IF Refusal(s, n) # "" \/ Len(s) < 2 THEN phase' = "done" /\ out' = s /\ UNCHANGED <<k, head, bucket>>
           ELSE /\ phase' = "run" /\ head' = FirstOnGrid(s, n) /\ k' = head' + 1
                /\ bucket' = T(s[head']) /\ UNCHANGED out
        /\ UNCHANGED <<s, n>>

(* A candle of another interval closes the one being collected. *)
Consume == /\ phase = "run" /\ k <= Len(s)
           /\ LET b == T(s[k]) - ((T(s[k]) - bucket) % (60 * n))
              IN  IF b # bucket THEN out' = Append(out, Summary(s, head, k - 1, bucket)) /\ head' = k /\ bucket' = b
                  ELSE UNCHANGED <<out, head, bucket>>
           /\ k' = k + 1 /\ UNCHANGED <<s, n, phase>>

Finish == /\ phase = "run" /\ k > Len(s)
          /\ out' = Append(out, Summary(s, head, Len(s), bucket))
          /\ phase' = "done" /\ UNCHANGED <<s, n, k, head, bucket>>

Next == Call \/ Consume \/ Finish
Spec == Init /\ [][Next]_vars
Emit == phase # "call" \/ CSVWrite("%1$s", <<ToJson([s |-> s, n |-> n])>>, IOEnv.EMIT_FILE)

(* ------------------------------ properties ----------------------------- *)
Succeeded == phase = "done" /\ Len(s) >= 2 /\ Refusal(s, n) = ""
C17 == Succeeded => out = Resampled(s, n)
C17Partition == Succeeded =>
    LET f == FirstOnGrid(s, n)
    IN  /\ Sum(Map(out, V)) = Sum(Map(SubSeq(s, f, Len(s)), V))
        /\ \A j \in 1..Len(out) : (T(out[j]) - T(s[f])) % (60 * n) = 0
        /\ \A j \in 2..Len(out) : T(out[j]) > T(out[j - 1])
C51 == Succeeded =>
    /\ \A to \in 2..Len(s) : Refusal(SubSeq(s, 1, to), n) = "" => CutShort(out, Resampled(SubSeq(s, 1, to), n))
    /\ \A from \in 1..(Len(s) - 1) :
          LET late == SubSeq(s, from, Len(s))
          IN  Refusal(late, n) = "" /\ StartsInterval(out, T(s[from]), n) => StartedLater(out, Resampled(late, n), T(s[from]))
    /\ LET moved == [j \in 1..Len(s) |-> [s[j] EXCEPT ![1] = @ + 7200]]
       IN  Resampled(moved, n) = [j \in 1..Len(out) |-> [out[j] EXCEPT ![1] = @ + 7200]]
C18 == (phase = "done" /\ ~Succeeded) => out = s
C20 == MinGap(s) >= 0 /\ (Len(s) >= 2 => \E j \in 2..Len(s) : (T(s[j]) - T(s[j - 1])) \div 60 = MinGap(s))
(* Two steps or one. *)
Divisors == {m \in Intervals : m > 0 /\ 60 % m = 0}
C19 == (Succeeded /\ Gapless(s) /\ 60 % n = 0) =>
          \A m \in Divisors :
             (m % n = 0 /\ Len(out) >= 2) =>
                /\ Refusal(out, m) = Refusal(s, m)
                /\ Refusal(s, m) = "" => Resampled(out, m) = Resampled(s, m)
=============================================================================
