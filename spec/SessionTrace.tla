---------------------------- MODULE SessionTrace ----------------------------
(* Judges recorded sessions of one context.                                  *)
(*                                                                           *)
(* Writing: x.o the options, x.h a heap, x.ops the operations with their     *)
(* value r (a reference into the heap), the exception err or the document w. *)
(* Each document must be what the format says about that value alone.        *)
(*                                                                           *)
(* Reading: x.ct the classes that can be loaded, x.ops the operations with   *)
(* the document w, keep, give (classes supplied), fate (whether it raises)   *)
(* and err; x.h, x.rs one heap with the results of all operations.  The      *)
(* results together must be what reading the documents one after another     *)
(* gives, where an operation that does not keep starts from nothing.         *)
EXTENDS Codec, Json
CONSTANTS File, Chains
Recs == ndJsonDeserialize(File)
VARIABLE l
Init == l \in 1..Chains /\ l <= Len(Recs)
Next == l + Chains <= Len(Recs) /\ l' = l + Chains
Spec == Init /\ [][Next]_l

-----------------------------------------------------------------------------
Failing(h, r) == \E i \in Reach(h, r) : h[i].k = "fail"
WriteOk(x, e) ==
  IF e.err # "" THEN Failing(x.h, e.r)
  ELSE Failing(x.h, e.r) \/ JEq(Unpack(e.w), Flatten(x.h, e.r, x.o))
Clashes(x, e) == Fl(x.h, e.r, x.o, 0, St0).st.clash
WriteVerdict(x) ==
  LET bad == {i \in 1..Len(x.ops) : ~WriteOk(x, x.ops[i])} IN
  IF bad = {} THEN "ok"
  ELSE IF \A i \in bad : x.ops[i].err = "" /\ Clashes(x, x.ops[i]) THEN "excused"
  ELSE IF 1 \in bad THEN "the first operation went wrong"
  ELSE "a later operation was not like the first of a new context"

-----------------------------------------------------------------------------
Objs(gs) == [i \in 1..Len(gs) |-> <<gs[i], "obj">>]
HasPx(h) == \E i \in 1..Len(h) : LET ks == Kids(h[i]) IN \E y \in 1..Len(ks) : IsPx(ks[y])
(* px: an operation that keeps has left a placeholder, which is outside of   *)
(* what is promised.                                                         *)
RECURSIVE ReadAll(_,_,_,_,_)
ReadAll(x, i, st, rs, px) ==
  IF i > Len(x.ops) THEN [h |-> st.h, rs |-> rs, px |-> px]
  ELSE LET e == x.ops[i] IN
       IF e.fate = "raise"   \* nothing can be kept after it
       THEN ReadAll(x, i + 1, st, Append(rs, NoneR), px)
       ELSE LET s0 == [st EXCEPT !.objs = IF e.keep THEN @ ELSE <<>>,
                                !.ct = (IF e.keep THEN @ ELSE x.ct) \o Objs(e.give)]
                y == Rs(Unpack(e.w), x.o, s0)
            IN IF e.keep THEN ReadAll(x, i + 1, y.st, Append(rs, y.r), px \/ IsPx(y.r) \/ HasPx(y.st.h))
               ELSE ReadAll(x, i + 1, [y.st EXCEPT !.h = Now(Sweep(y.st))], Append(rs, Swap(y.st, y.r)), px)
ReadVerdict(x) ==
  LET want == ReadAll(x, 1, [Env0 EXCEPT !.ct = x.ct], <<>>, FALSE)
      wrap(h, rs) == h \o <<Node("list", "list", rs, <<>>, <<>>, <<>>)>>
      hw == wrap(want.h, want.rs)
      hg == wrap(x.h, x.rs)
      off == {i \in 1..Len(x.ops) : (x.ops[i].err # "") # (x.ops[i].fate = "raise")}
  IN IF off = {} /\ Iso(hw, Nd(Len(hw)), hg, Nd(Len(hg))) THEN "ok"
     ELSE IF want.px \/ HasPx(want.h) THEN "excused"
     ELSE IF off # {} THEN LET i == CHOOSE i \in off : \A k \in off : i <= k IN "operation raised: " \o x.ops[i].err
     ELSE "results differ from those of new contexts"

Verdict(x) == IF x.side = "write" THEN WriteVerdict(x) ELSE ReadVerdict(x)
Judge == LET v == Verdict(Recs[l]) IN IF v = "ok" THEN TRUE ELSE PrintT(<<"BAD", l, v>>)
=============================================================================
