--------------------------- MODULE BackendsTrace ---------------------------
(* Judges recorded histories of a backend manager: x.ops the operations,     *)
(* x.seen what each of them returned or raised, and the calls that backend   *)
(* modules received during it, with the options they were given.             *)
EXTENDS Backends
CONSTANTS File, Chains
Recs == ndJsonDeserialize(File)
VARIABLE l
TInit == l \in 1..Chains /\ l <= Len(Recs) /\ b = Start /\ hist = <<>>
TNext == l + Chains <= Len(Recs) /\ l' = l + Chains /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<l, vars>>

(* Options of the call itself come on top of those that were set.            *)
Full(opts, extra) == opts \o (IF extra = "" THEN "" ELSE "+" \o extra)
RECURSIVE Bad(_,_,_)
Bad(x, i, s) ==
  IF i > Len(x.ops) THEN 0
  ELSE LET e == x.ops[i]
           y == Apply(s, e)
           want == [k \in 1..Len(y.calls) |-> <<y.calls[k][1], y.calls[k][2], Full(y.calls[k][3], e.v)>>]
           got == x.seen[i].calls
       IN IF x.seen[i].r # y.r THEN i
          ELSE IF Len(got) # Len(want) THEN i
          ELSE IF \E k \in 1..Len(got) : <<got[k][1], got[k][2], got[k][3]>> # want[k] THEN i
          ELSE Bad(x, i + 1, y.b)
Verdict(x) == LET i == Bad(x, 1, Start) IN IF i = 0 THEN "ok" ELSE "wrong answer of " \o x.ops[i].op
Judge == LET v == Verdict(Recs[l]) IN IF v = "ok" THEN TRUE ELSE PrintT(<<"BAD", l, v>>)
=============================================================================
