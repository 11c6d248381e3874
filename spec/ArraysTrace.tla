---------------------------- MODULE ArraysTrace ----------------------------
(* Judges recorded executions on arrays.                                     *)
(*                                                                           *)
(* A record holds: heap and graph; want and got, for each member of the      *)
(* graph, its kind, type, shape, content and whether it may be written to,   *)
(* before and after; bytes, for                                              *)
(* each member of the decoded graph, the addresses of the bytes of its       *)
(* elements, renamed to 1, 2, 3 ... in the order of their first occurrence;  *)
(* ids the arrays of the decoded graph, renamed likewise; tail whether the   *)
(* references behind the members are right; err the exception, if any.       *)
EXTENDS Arrays

CONSTANTS File, Chains
Recs == ndJsonDeserialize(File)
VARIABLE l
TInit == l \in 1..Chains /\ l <= Len(Recs) /\ heap = <<>> /\ graph = <<>>
TNext == l + Chains <= Len(Recs) /\ l' = l + Chains /\ UNCHANGED <<heap, graph>>
TSpec == TInit /\ [][TNext]_<<l, heap, graph>>

RECURSIVE Concat(_), Rename(_,_,_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
(* First occurrences get the next number.                                    *)
Rename(s, known, out) ==
  IF s = <<>> THEN out
  ELSE IF Head(s) \in DOMAIN known THEN Rename(Tail(s), known, out \o <<known[Head(s)]>>)
  ELSE LET n == Cardinality(DOMAIN known) + 1 IN Rename(Tail(s), known @@ (Head(s) :> n), out \o <<n>>)

BytesOf(a) == LET c == Cells(a) m == Item(a.t) IN
              Concat([i \in 1..Len(c) |-> [j \in 1..m |-> <<a.own, c[i] + j - 1>>]])
Member(hp, g) == IF g[1] = "array" THEN BytesOf(hp[g[2]]) ELSE <<>>
Aliasing(hp, gr) == Rename(Concat([i \in 1..Len(gr) |-> Member(hp, gr[i])]), <<>>, <<>>)

Same(gr) == Rename([i \in 1..Len(gr) |-> IF gr[i][1] = "array" THEN <<gr[i][2]>> ELSE <<0, i>>], <<>>, <<>>)

Verdict(r) ==
  IF r.err # "" THEN "raised: " \o r.err
  ELSE IF Len(r.got) # Len(r.want) THEN "another number of members"
  ELSE LET bad == {i \in 1..Len(r.want) : r.got[i] # r.want[i]} IN
       IF bad # {} THEN
         LET i == CHOOSE j \in bad : \A k \in bad : j <= k IN
         IF r.got[i].kind # r.want[i].kind THEN "another kind of object"
         ELSE IF r.got[i].dtype # r.want[i].dtype THEN "another dtype"
         ELSE IF r.got[i].shape # r.want[i].shape THEN "another shape"
         ELSE IF r.got[i].w # r.want[i].w THEN "may or may not be written to"
         ELSE "other values"
       ELSE IF r.bytes # Aliasing(r.heap, r.graph) THEN "other memory is shared"
       ELSE IF r.ids # Same(r.graph) THEN "arrays were merged or split"
       ELSE IF ~r.tail THEN "references behind the arrays are off"
       ELSE "ok"
Judge == LET v == Verdict(Recs[l]) IN IF v = "ok" THEN TRUE ELSE PrintT(<<"BAD", l, v>>)
=============================================================================
