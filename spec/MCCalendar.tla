----------------------------- MODULE MCCalendar -----------------------------
(* Walks through the calendar day by day: the successor rule, the day        *)
(* numbers and the conversion back agree, and every zone change happens on   *)
(* the right day.                                                            *)
EXTENDS Calendar, Json, IOUtils, CSV
CONSTANTS FirstYears, Years

VARIABLES date, n, until
vars == <<date, n, until>>

Init == \E y \in FirstYears : date = <<y, 1, 1>> /\ n = DayNumber(y, 1, 1) /\ until = y + Years
Walk == NextDay(date)[1] < until /\ date' = NextDay(date) /\ n' = n + 1 /\ UNCHANGED until
Next == Walk
Spec == Init /\ [][Next]_vars
Emit == CSVWrite("%1$s", <<ToJson([y |-> date[1], m |-> date[2], d |-> date[3], n |-> n])>>, IOEnv.EMIT_FILE)

(* ------------------------------ properties ----------------------------- *)
Codes(y, m, d) == <<48 + y \div 1000, 48 + ((y \div 100) % 10), 48 + ((y \div 10) % 10), 48 + (y % 10), 45,
                    48 + m \div 10, 48 + (m % 10), 45, 48 + d \div 10, 48 + (d % 10)>>
C37 == /\ Exists(date[1], date[2], date[3])
       /\ DayNumber(date[1], date[2], date[3]) = n
       /\ Civil(n) = date
       /\ IsDate(Codes(date[1], date[2], date[3]))
       /\ DayOf(Codes(date[1], date[2], date[3])) = n
       /\ \A k \in 29..32 : IsDate(Codes(date[1], date[2], k)) = (k <= DaysIn(date[1], date[2]))
Zero == DayNumber(1970, 1, 1) = 0 /\ Weekday(0) = 4
(* Wall clocks are within a day of UTC and move by whole half or quarter hours. *)
C34 == \A zone \in Zones : Covered(zone, <<n, 0>>) =>
          /\ Offset(zone, <<n, 0>>) % 900 = 0
          /\ Abs(Offset(zone, <<n, 0>>)) <= 50400
          /\ LET w == Wall(zone, <<n, 0>>) IN DayNumber(w[1], w[2], w[3]) \in {n - 1, n, n + 1}
(* A seasonal zone changes exactly twice a year. *)
ChangesIn(zone, y) == Cardinality({k \in DayNumber(y, 1, 1)..(DayNumber(y + 1, 1, 1) - 1) : Offset(zone, <<k, 0>>) # Offset(zone, <<k + 1, 0>>)})
Twice == (date[2] = 1 /\ date[3] = 1 /\ date[1] >= 2009 /\ date[1] <= 2036) => \A zone \in Seasonal : ChangesIn(zone, date[1]) = 2
=============================================================================
