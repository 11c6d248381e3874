---------------------------- MODULE ClassesTrace ---------------------------
(* Judges recorded executions on instances of generated classes.             *)
(*                                                                           *)
(* A record holds: h and x the hierarchy and the instance; keys the names    *)
(* found in the text, each with the place its value came from; odd the names *)
(* that no place has; back the places filled in the decoded instance, each   *)
(* with the place its value came from; kind whether its class is the right   *)
(* one; inits how often an initializer ran; shared whether values written    *)
(* elsewhere are the same objects; same whether the instance that was        *)
(* encoded is as before; held, wrote and found the content of the builtin    *)
(* type before, in the text and after; read whether there was a decoding at all; err the       *)
(* exception, if any.                                                        *)
EXTENDS Classes

CONSTANTS File, Chains
Recs == ndJsonDeserialize(File)
VARIABLE l
TInit == l \in 1..Chains /\ l <= Len(Recs) /\ h = <<>> /\ x = Nobody
TNext == l + Chains <= Len(Recs) /\ l' = l + Chains /\ UNCHANGED <<h, x>>
TSpec == TInit /\ [][TNext]_<<l, h, x>>

Range(s) == {s[i] : i \in 1..Len(s)}
Hier(r) == [cs |-> [i \in 1..Len(r.cs) |-> [sl |-> Range(r.cs[i].sl), at |-> Range(r.cs[i].at), pr |-> Range(r.cs[i].pr),
                                            ex |-> Range(r.cs[i].ex)]],
            wide |-> r.wide, form |-> r.form, base |-> r.base]
Inst(r) == [at |-> Range(r.at), ex |-> Range(r.ex)]

Verdict(r) ==
  LET g == Hier(r.h) y == Inst(r.x) kept == Kept(g, y) IN
  IF r.err # "" THEN "raised: " \o r.err
  ELSE IF r.odd # <<>> THEN "something that is no attribute of the instance was written"
  ELSE IF Range(r.keys) # {<<NameOf(g, p), p>> : p \in kept} THEN "other attributes were written"
  ELSE IF r.wrote # r.held THEN "other content was written"
  ELSE IF ~r.same THEN "the encoded instance has changed"
  ELSE IF ~r.read THEN "ok"
  ELSE IF ~r.kind THEN "an instance of another class was read"
  ELSE IF r.inits # 0 THEN "an initializer ran"
  ELSE IF Range(r.back) # {<<p, p>> : p \in kept} THEN "other attributes were read"
  ELSE IF r.found # r.held THEN "other content was read"
  ELSE IF ~r.shared THEN "sharing was lost"
  ELSE "ok"
Judge == LET v == Verdict(Recs[l]) IN IF v = "ok" THEN TRUE ELSE PrintT(<<"BAD", l, v>>)
=============================================================================
