------------------------------ MODULE DocTrace ------------------------------
(* Judges recorded readings of documents.                                    *)
(*                                                                           *)
(* A record holds: w the document, o the options, ct, gone and form as in    *)
(* Docs, b the result, err the exception.  For plain documents: wt the       *)
(* document written for the tree that was read.  For texts: fired how many   *)
(* of the texts were evaluated, tried how many were handed to the compiler.  *)
(* For classes: policy, called the names given to the callback, warned the   *)
(* number of warnings.                                                       *)
EXTENDS Docs

CONSTANTS File, Clauses, Chains
Recs == ndJsonDeserialize(File)
VARIABLE l
TInit == l \in 1..Chains /\ l <= Len(Recs) /\ doc = NullJ /\ inner = 0 /\ form = <<"none">> /\ opts = <<>>
TNext == l + Chains <= Len(Recs) /\ l' = l + Chains /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<l, vars>>

Want(c) == c \in Clauses

(* The policy for classes that are missing.                                  *)
PolicyOk(x, miss) ==
  CASE x.policy \in {"ignore", "invalid"} -> x.called = <<>> /\ x.warned = 0
    [] x.policy = "warn" -> x.called = <<>> /\ x.warned = Len(miss)
    [] x.policy = "call" -> x.called = miss /\ x.warned = 0
    [] OTHER -> x.called = <<>> /\ x.warned = 0

Verdict(x) ==
  LET w == Unpack(x.w)
      env == [Env0 EXCEPT !.ct = x.ct, !.gone = x.gone, !.sup = Entries(x.form)]
      m == RestoreIn(w, x.o, env)
  IN
  IF Want("classes") /\ x.policy = "error" /\ m.miss # <<>>
  THEN IF x.err \in {"missing " \o m.miss[1], "missing ?"} THEN "ok" ELSE "a missing class was not reported: " \o x.err
  ELSE IF HasPx(m.h) \/ IsPx(m.r) THEN "excused"
  ELSE IF x.err # "" THEN "raised: " \o x.err
  ELSE IF Want("plain") /\ ~IsTree(x.b.h, x.b.r, w) THEN "a plain document was changed"
  ELSE IF Want("plain") /\ Unpack(x.wt) # w THEN "a plain tree was changed"
  ELSE IF ~Iso(m.h, m.r, x.b.h, x.b.r) THEN "document was read differently"
  ELSE IF Want("texts") /\ (x.fired # m.fired \/ (x.o.safe /\ x.tried # 0)) THEN "text was evaluated"
  ELSE IF Want("classes") /\ ~PolicyOk(x, m.miss) THEN "the policy was not followed"
  ELSE "ok"

Judge == LET v == Verdict(Recs[l]) IN IF v = "ok" THEN TRUE ELSE PrintT(<<"BAD", l, v>>)
=============================================================================
