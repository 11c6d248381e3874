--------------------------- MODULE RegistryTrace ---------------------------
(* Judges recorded histories of the handler registry.                        *)
(*                                                                           *)
(* A record holds ops, the calls; and seen, what was observed after each of  *)
(* them (seen[1] is before the first): err the exception of the call, and    *)
(* for every class [c, get, default, name, enc, dec]: the handler found for  *)
(* the class, found with a default given, found for its name, and the        *)
(* handlers that wrote and read an instance ("plain" if it was written       *)
(* without a handler, "missing" if the class could not be loaded).           *)
EXTENDS Registry

CONSTANTS File, Chains,
          Locals    \* classes that cannot be imported

Recs == ndJsonDeserialize(File)
VARIABLE l
TInit == l \in 1..Chains /\ l <= Len(Recs) /\ hist = <<>>
TNext == l + Chains <= Len(Recs) /\ l' = l + Chains /\ hist' = hist
TSpec == TInit /\ [][TNext]_<<l, hist>>

(* Decoding knows a class that cannot be imported only by its name.          *)
Decoder(t, c) == IF c \in Locals THEN GetName(t, c) ELSE Get(t, c)
SeenOk(t, s) ==
  /\ s.get = Get(t, s.c)
  /\ s.default = (IF Get(t, s.c) = None THEN "default" ELSE Get(t, s.c))
  /\ s.name = GetName(t, s.c)
  /\ s.enc = (IF Get(t, s.c) = None THEN "plain" ELSE Get(t, s.c))
  /\ s.dec = (IF Decoder(t, s.c) # None THEN Decoder(t, s.c)
              ELSE IF s.c \in Locals THEN "missing" ELSE "plain")
RECURSIVE Bad(_,_,_)
Bad(x, i, t) ==   \* the first step after which something differs, 0 if none
  IF \E k \in 1..Len(x.seen[i].classes) : ~SeenOk(t, x.seen[i].classes[k]) THEN i
  ELSE IF i > 1 /\ x.seen[i].err # (IF x.ops[i-1].op = "refused" THEN "TypeError" ELSE "") THEN i
  ELSE IF i > Len(x.ops) THEN 0
  ELSE Bad(x, i + 1, Apply(t, x.ops[i]))

Verdict(x) == LET b == Bad(x, 1, T0) IN
              IF b = 0 THEN "ok" ELSE IF b = 1 THEN "handlers before the first call"
              ELSE "wrong handler after " \o x.ops[b-1].op
Judge == LET v == Verdict(Recs[l]) IN IF v = "ok" THEN TRUE ELSE PrintT(<<"BAD", l, v>>)
=============================================================================
