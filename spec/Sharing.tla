------------------------------ MODULE Sharing ------------------------------
(* A program that uses the library and keeps everything it was ever given.   *)
(* What it holds is a sequence of values; a call takes some of them and adds *)
(* its result, or changes the one it is called on, or the program itself     *)
(* overwrites one it owns.  Nothing else it holds may change, and the same   *)
(* call on the same values has the same result.                              *)
EXTENDS Util

Call(ins, out, changes) == [ins |-> ins, out |-> out, changes |-> changes]
(* ins: kinds of the arguments; out: kind of the result; changes: which argument is changed in place. *)
Calls == [
    sma |-> Call(<<"candles">>, "values", 0), ema |-> Call(<<"candles">>, "values", 0), smma |-> Call(<<"candles">>, "values", 0),
    rsi |-> Call(<<"candles">>, "values", 0), ewv |-> Call(<<"candles">>, "values", 0), fractals |-> Call(<<"candles">>, "values", 0),
    minimum |-> Call(<<"candles">>, "values", 0), resample |-> Call(<<"candles">>, "candles", 0), file |-> Call(<<"candles">>, "candles", 0),
    book |-> Call(<<"rows", "rows">>, "book", 0), depth |-> Call(<<"book">>, "values", 0), overlap |-> Call(<<"book", "book">>, "values", 0),
    update |-> Call(<<"book">>, "", 1),
    open |-> Call(<<"trade">>, "position", 0), modify |-> Call(<<"position", "trade">>, "", 1), unrealized |-> Call(<<"position">>, "values", 0),
    trade |-> Call(<<>>, "trade", 0), request |-> Call(<<>>, "request", 0), fields |-> Call(<<"request">>, "request", 0),
    asset |-> Call(<<>>, "values", 0), forex |-> Call(<<>>, "values", 0), stock |-> Call(<<>>, "values", 0),
    symbol |-> Call(<<>>, "values", 0), date |-> Call(<<>>, "values", 0), zone |-> Call(<<>>, "values", 0),
    text |-> Call(<<"book">>, "values", 0), ticket |-> Call(<<"trade">>, "values", 0) ]
Ops == DOMAIN Calls

(* The slots a call may take: one slot number for each argument. *)
Bindings(op, kinds) ==
    LET ins == Calls[op].ins
    IN  {c \in [1..Len(ins) -> 1..Len(kinds)] : \A k \in 1..Len(ins) : kinds[c[k]] = ins[k]}

(* What is held after a call, given the value it produced. *)
HeldAfter(held, op, slots, value) ==
    IF Calls[op].changes # 0 THEN [held EXCEPT ![slots[Calls[op].changes]] = value] ELSE Append(held, value)
=============================================================================
