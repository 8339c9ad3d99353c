------------------------------- MODULE Util -------------------------------
(* Small helpers shared by the finmod specifications. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Abs(x) == IF x < 0 THEN -x ELSE x
Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x > y THEN x ELSE y

Take(s, n) == SubSeq(s, 1, Min2(n, Len(s)))

(* Arithmetic on observed numbers: what does not fit the integers of TLC is Huge, *)
(* which no observation is (the code may have computed anything).                 *)
Huge == 2000000000
Plus(x, y) == IF IF x > 0 THEN y > Huge - x ELSE y < -Huge - x THEN Huge ELSE x + y
Product(x, y) == IF x = 0 \/ y = 0 THEN 0 ELSE IF Abs(x) > Huge \div Abs(y) THEN Huge ELSE x * y
Sum(s) == FoldLeft(Plus, 0, s)
Map(s, Op(_)) == [k \in 1..Len(s) |-> Op(s[k])]

MaxOf(s) == FoldLeft(LAMBDA acc, x : Max2(acc, x), s[1], s)
MinOf(s) == FoldLeft(LAMBDA acc, x : Min2(acc, x), s[1], s)

(* s is obtained from t by dropping elements, keeping the order. *)
IsSubsequence(s, t) ==
    FoldLeft(LAMBDA k, x : IF k <= Len(s) /\ s[k] = x THEN k + 1 ELSE k, 1, t) = Len(s) + 1
===========================================================================
