------------------------------- MODULE Zones -------------------------------
(* What the machine's time zone may change: nothing but the way an instant   *)
(* is shown.  A zone is its offset from UTC in minutes.                      *)
EXTENDS Resample

(* The minute of the hour a clock in the zone shows, and the grid of that clock. *)
ClockMinute(t, z) == ((t \div 60) + z) % 60
OnClockGrid(t, n, z) == ClockMinute(t, z) % GridMinutes(n) = 0

(* A result obtained in several zones. *)
SameEverywhere(results) == \A k \in 1..Len(results) : results[k] = results[1]
=============================================================================
