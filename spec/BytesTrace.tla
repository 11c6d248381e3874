----------------------------- MODULE BytesTrace ----------------------------
(* Judges recorded executions on byte strings.                               *)
(*                                                                           *)
(* A record holds: raw the bytes; t64 and t85 the texts that were written;   *)
(* back the byte strings that were read back, each with the type it has and  *)
(* the type it should have; err the exception, if any.                       *)
EXTENDS Bytes

CONSTANTS File, Chains
Recs == ndJsonDeserialize(File)
VARIABLE l
Init == l \in 1..Chains /\ l <= Len(Recs) /\ b = <<>>
Next == l + Chains <= Len(Recs) /\ l' = l + Chains /\ b' = b
Spec == Init /\ [][Next]_<<l, b>>

Verdict(x) ==
  IF x.err # "" THEN "raised: " \o x.err
  ELSE IF ~(WellFormed64(x.t64) /\ Dec64(x.t64) = x.raw) THEN "the base64 text stands for other bytes"
  ELSE IF ~(WellFormed85(x.t85) /\ Dec85(x.t85) = x.raw) THEN "the base85 text stands for other bytes"
  ELSE IF \E i \in 1..Len(x.back) : x.back[i].got # x.raw \/ x.back[i].type # x.back[i].want
       THEN "other bytes were read"
  ELSE "ok"
Judge == LET v == Verdict(Recs[l]) IN IF v = "ok" THEN TRUE ELSE PrintT(<<"BAD", l, v>>)
=============================================================================
