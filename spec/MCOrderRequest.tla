--------------------------- MODULE MCOrderRequest ---------------------------
(* Every combination of request fields, completed for two current prices.    *)
EXTENDS OrderFlow, TLC, Json, IOUtils, CSV
CONSTANTS Amounts, Types

(* Amounts of a request may be negative, too (a configuration cannot name negative numbers). *)
Signed == Amounts \cup {-1}

VARIABLES req, stage, cur
vars == <<req, stage, cur>>
Requests == [base : BOOLEAN, action : {"buy", "sell", "other", ""}, type : Types, qty : Signed, price : Amounts, total : Signed]
Init == req \in Requests /\ stage = "new" /\ cur = <<>>
Complete(c) == stage = "new" /\ stage' = "complete" /\ cur' = c /\ UNCHANGED req
Next == \E c \in Amounts \X Amounts : Complete(c)
Spec == Init /\ [][Next]_vars
Emit == CSVWrite("%1$s", <<ToJson([req |-> req, cur |-> cur'])>>, IOEnv.EMIT_FILE)
C13 == stage = "complete" => \A k \in 1..2 :
          ~CompleteFails(req, cur[k]) =>
             LET c == Completed(req, cur[k])
             IN  /\ c.qty[2] # 0 /\ Balanced(req, cur[k], c)
                 /\ (req.qty # 0 => c.qty = <<req.qty, 1>>) /\ (req.total # 0 => c.total = req.total)
C57 == stage = "complete" => \A k \in 1..2 : (req.qty # 0 /\ Reference(req, cur[k]) # 0) =>
          LET a == Completed(ByQuantity(req, req.qty), cur[k])
              b == Completed(ByTotal(req, a.total), cur[k])
          IN  /\ ~CompleteFails(ByTotal(req, a.total), cur[k])
              /\ SameOrder(a, b)
              /\ SameOrder(Completed(ByQuantity(req, 3 * req.qty), cur[k]), TimesOrder(3, a))
              /\ SameOrder(Completed(ByTotal(req, 3 * a.total), cur[k]), TimesOrder(3, a))
              /\ req.type \notin AtCurrentPrice => SameOrder(Completed(ByQuantity(req, req.qty), cur[3 - k]), a)
=============================================================================
