------------------------------ MODULE Calendar ------------------------------
(* Civil dates, instants and time zones. An instant is <<day, second>>: days *)
(* since 1970-01-01 and seconds into that day, both in UTC. A text is a      *)
(* sequence of character codes.                                              *)
EXTENDS Util, TLC

(* ----------------------------- civil dates ----------------------------- *)
IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == IF m = 2 THEN (IF IsLeap(y) THEN 29 ELSE 28)
                ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
Exists(y, m, d) == m \in 1..12 /\ d >= 1 /\ d <= DaysIn(y, m)

(* Days since 1970-01-01, years counted from March. *)
DayNumber(y, m, d) ==
    LET yy == IF m <= 2 THEN y - 1 ELSE y
        mm == (m + 9) % 12
        era == yy \div 400
        yoe == yy - era * 400
        doy == (153 * mm + 2) \div 5 + d - 1
        doe == yoe * 365 + yoe \div 4 - yoe \div 100 + doy
    IN  era * 146097 + doe - 719468

Civil(n) ==
    LET z == n + 719468
        era == z \div 146097
        doe == z - era * 146097
        yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
        doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
        mp == (5 * doy + 2) \div 153
        d == doy - (153 * mp + 2) \div 5 + 1
        m == IF mp < 10 THEN mp + 3 ELSE mp - 9
        y == yoe + era * 400
    IN  <<IF m <= 2 THEN y + 1 ELSE y, m, d>>

Weekday(n) == (n + 4) % 7   (* 0 is Sunday *)
NextDay(c) == IF c[3] < DaysIn(c[1], c[2]) THEN <<c[1], c[2], c[3] + 1>>
              ELSE IF c[2] < 12 THEN <<c[1], c[2] + 1, 1>> ELSE <<c[1] + 1, 1, 1>>

(* ------------------------------ raw dates ------------------------------ *)
Digit(c) == c >= 48 /\ c <= 57
ValueOf(text, from, to) == FoldLeft(LAMBDA acc, k : 10 * acc + text[k] - 48, 0, [k \in 1..(to - from + 1) |-> from + k - 1])
WellFormed(text) ==
    /\ Len(text) = 10
    /\ \A k \in {1, 2, 3, 4, 6, 7, 9, 10} : Digit(text[k])
    /\ text[5] = 45 /\ text[8] = 45
IsDate(text) == IF WellFormed(text)
                THEN Exists(ValueOf(text, 1, 4), ValueOf(text, 6, 7), ValueOf(text, 9, 10)) ELSE FALSE
DayOf(text) == DayNumber(ValueOf(text, 1, 4), ValueOf(text, 6, 7), ValueOf(text, 9, 10))

(* --------------------------------- zones ------------------------------- *)
(* Offsets in seconds; the rules hold for the years the checks use.          *)
Fixed == [x \in {"UTC"} |-> 0] @@ [x \in {"Etc/GMT+5"} |-> -18000] @@ [x \in {"Etc/GMT-14"} |-> 50400]
         @@ [x \in {"Asia/Tokyo"} |-> 32400] @@ [x \in {"Asia/Kolkata"} |-> 19800]
         @@ [x \in {"Asia/Kathmandu"} |-> 20700] @@ [x \in {"America/Phoenix"} |-> -25200]
         @@ [x \in {"Asia/Dubai"} |-> 14400] @@ [x \in {"Australia/Brisbane"} |-> 36000]
(* From which year on. *)
FixedSince(zone) == IF zone \in {"UTC", "Etc/GMT+5", "Etc/GMT-14"} THEN -9999 ELSE 1993

NthSunday(y, m, n) == LET f == DayNumber(y, m, 1) IN f + ((7 - Weekday(f)) % 7) + 7 * (n - 1)
LastSunday(y, m) == LET l == DayNumber(y, m, DaysIn(y, m)) IN l - Weekday(l)

Before(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
(* Changes at local wall time h with the offset valid until then. *)
At(day, h, offset) == LET s == h * 3600 - offset IN <<day + s \div 86400, s % 86400>>

Seasonal == {"America/New_York", "America/Los_Angeles", "Europe/London", "Europe/Berlin", "Australia/Adelaide"}
Summer(zone, t) ==
    LET y == Civil(t[1])[1]
    IN  CASE zone = "America/New_York" -> ~Before(t, At(NthSunday(y, 3, 2), 2, -18000)) /\ Before(t, At(NthSunday(y, 11, 1), 2, -14400))
          [] zone = "America/Los_Angeles" -> ~Before(t, At(NthSunday(y, 3, 2), 2, -28800)) /\ Before(t, At(NthSunday(y, 11, 1), 2, -25200))
          [] zone \in {"Europe/London", "Europe/Berlin"} -> ~Before(t, <<LastSunday(y, 3), 3600>>) /\ Before(t, <<LastSunday(y, 10), 3600>>)
          [] zone = "Australia/Adelaide" -> ~(~Before(t, At(NthSunday(y, 4, 1), 3, 37800)) /\ Before(t, At(NthSunday(y, 10, 1), 2, 34200)))
Standard(zone) == CASE zone = "America/New_York" -> -18000
                    [] zone = "America/Los_Angeles" -> -28800
                    [] zone = "Europe/London" -> 0
                    [] zone = "Europe/Berlin" -> 3600
                    [] zone = "Australia/Adelaide" -> 34200
Zones == DOMAIN Fixed \cup Seasonal
Offset(zone, t) == IF zone \in DOMAIN Fixed THEN Fixed[zone]
                   ELSE Standard(zone) + (IF Summer(zone, t) THEN 3600 ELSE 0)

(* What the clock on the wall shows: year, month, day, hour, minute, second. *)
Wall(zone, t) ==
    LET s == t[2] + Offset(zone, t)
        day == t[1] + s \div 86400
        sec == s % 86400
        c == Civil(day)
    IN  <<c[1], c[2], c[3], sec \div 3600, (sec % 3600) \div 60, sec % 60>>

Covered(zone, t) == LET y == Civil(t[1])[1]
                    IN  IF zone \in DOMAIN Fixed THEN y >= FixedSince(zone) /\ y <= 9990 /\ (y <= 2037 \/ FixedSince(zone) < 0)
                        ELSE y >= 2009 /\ y <= 2037
=============================================================================
