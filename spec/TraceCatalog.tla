---------------------------- MODULE TraceCatalog ----------------------------
(* Judges lookups and pair symbols recorded from the code.                   *)
EXTENDS Catalog, TLC, Json, IOUtils

Log == ndJsonDeserialize(IOEnv.TRACE_FILE)
Prop == IOEnv.PROP

VARIABLE i
vars == <<i>>
Init == i = 1

Lookup(e) == e.panic = FALSE /\ (Prop = "C36" => LookupOK(e.which, e.symbol, e.err, e.outSymbol, e.outName))
New(e) == /\ e.panic = FALSE
          /\ IF Prop = "C36"
             THEN IF e.symbol = "" \/ e.name = "" THEN e.err # ""
                  ELSE e.err = "" /\ e.outSymbol = e.symbol /\ e.outName = e.name
             ELSE TRUE
Symbol(e) == e.panic = FALSE /\ (Prop = "C35" => e.out = PairSymbol(e.base, e.sep, e.quote))
Entry(e) == e.panic = FALSE /\ (Prop = "C35" => EntryOK(e.key, e.base, e.quote) /\ e.out = e.key)

Step(e) == CASE e.op = "lookup" -> Lookup(e)
             [] e.op = "new" -> New(e)
             [] e.op = "symbol" -> Symbol(e)
             [] e.op = "entry" -> Entry(e)

Next == i <= Len(Log) /\ Step(Log[i]) /\ i' = i + 1
Spec == Init /\ [][Next]_vars
Accepted == PrintT(<<"VALIDATED", TLCGet("stats").diameter - 1, "OF", Len(Log)>>)
=============================================================================
