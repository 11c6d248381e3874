----------------------------- MODULE GraphTrace ----------------------------
(* Judges recorded executions of the library on object graphs.               *)
(*                                                                           *)
(* A record r holds: o the options; h, r the argument of encode (a heap and  *)
(* a reference) as seen before the call; a the same seen after the calls;    *)
(* w the document; b the decoded graph; err the exception, if any.           *)
(* Clauses is the set of clauses that make up the property being checked.    *)
EXTENDS Codec, Json

CONSTANTS File, Clauses, Chains

Recs == ndJsonDeserialize(File)

VARIABLE l
Init == l \in 1..Chains /\ l <= Len(Recs)
Next == l + Chains <= Len(Recs) /\ l' = l + Chains
Spec == Init /\ [][Next]_l

-----------------------------------------------------------------------------
RECURSIVE TagsIn(_)
TagsIn(j) ==
  IF IsLit(j) THEN {}
  ELSE IF IsArr(j) THEN UNION {TagsIn(j[2][x]) : x \in 1..Len(j[2])}
  ELSE UNION {TagsIn(j[2][x][2]) \cup (IF j[2][x][1][1] = "s" THEN {j[2][x][1][2]}
                                       ELSE TagsIn(j[2][x][1][2])) : x \in 1..Len(j[2])}

PlainTags == {"py/object", "py/id", "py/tuple", "py/set", "py/state", "py/reduce", "py/seq"}

(* The protocol steps an object goes through while it is decoded.            *)
Steps(n) ==
  CASE n.k \in ReduceKinds ->
         <<"new">> \o (IF n.attrs = <<>> THEN <<>>
                       ELSE IF n.k = "reducesix" THEN <<"setter">>
                       ELSE IF n.c = "vpk.ReduceSet" THEN <<"state">> ELSE <<>>)
         \o (IF n.ext = <<>> THEN <<>> ELSE <<"ext">>) \o (IF n.items = <<>> THEN <<>> ELSE <<"items">>)
    [] n.k = "argstate" -> IF n.c = "vpk.ArgStateSet" THEN <<"new", "state">> ELSE <<"new">>
    [] n.k \in {"newargs", "newargsex", "initargs"} /\ n.calls # <<>> -> <<"new">>
    [] n.k = "state" \/ (n.c = "vpk.StateDictSet" /\ n.attrs # <<>>) -> <<"state">>
    [] OTHER -> n.calls

(* An object that is needed to build its own constructor arguments cannot be *)
(* rebuilt: reading the expected document leaves a placeholder behind.       *)
HasPx(h) == \E i \in 1..Len(h) : LET ks == Kids(h[i]) IN \E y \in 1..Len(ks) : IsPx(ks[y])
(* Two keys of one dictionary that are written with the same text: see         *)
(* KNOWN_FINDINGS.txt.                                                       *)
KeysCollide(x) == "strict" \notin Clauses /\ Fl(x.h, x.r, x.o, 0, St0).st.clash
Impossible(x) == KeysCollide(x) \/ HasPx(Restore(Flatten(x.h, x.r, x.o), x.o, ClassTable(x.h)).h)

(* What handlers saw: ctx.want is the context of the call, ctx.seen what     *)
(* reached the handlers that accept one.                                     *)
Accepting(h, r) == Cardinality({i \in Reach(h, r) : h[i].c = "vpk.Handled"})
CtxOk(x) == /\ \A i \in 1..Len(x.ctx.enc) : x.ctx.enc[i] = x.ctx.want
            /\ \A i \in 1..Len(x.ctx.dec) : x.ctx.dec[i] = x.ctx.wantdec
            /\ Len(x.ctx.enc) = Accepting(x.h, x.r)
            /\ Len(x.ctx.dec) = Accepting(x.h, x.r)

(* Spaces and line breaks: layouts holds the layouts that give this text.    *)
LayoutOk(x) == \E i \in 1..Len(x.layouts) : x.layouts[i] = x.layout

(* Values that become null: elements of sequences, and open files anywhere.  *)
Nulled(h, i) ==
  LET n == h[i]
      bad(r, alsoLambda) == IF IsAtom(r) THEN alsoLambda /\ IsLambda(r) ELSE h[r[2]].k = "null"
  IN Cardinality({x \in 1..Len(n.seq) : bad(n.seq[x], TRUE)})
     + Cardinality({x \in 1..Len(n.ext) : bad(n.ext[x], TRUE)})
     + Cardinality({x \in 1..Len(n.items) : bad(n.items[x][2], n.k \in ReduceKinds)})
     + Cardinality({x \in 1..Len(n.attrs) : bad(n.attrs[x][2], FALSE)})
RECURSIVE SumOver(_,_)
SumOver(h, s) == IF s = {} THEN 0 ELSE LET i == CHOOSE i \in s : TRUE IN Nulled(h, i) + SumOver(h, s \ {i})
WarnOk(x) ==
  LET rootbad == IF IsAtom(x.r) THEN IsLambda(x.r) ELSE x.h[x.r[2]].k = "null"
      n == SumOver(x.h, Reach(x.h, x.r)) + (IF rootbad THEN 1 ELSE 0)
  IN IF x.warn THEN (n = 0 /\ x.warned = 0) \/ (n > 0 /\ x.warned >= n) ELSE x.warned = 0

(* drawn: for each iterator of the argument, the items taken from it.        *)
DrawnOk(x) ==
  LET written == Reach(View(x.h, x.o), x.r) IN
  \A i \in 1..Len(x.drawn) :
     x.drawn[i][2] = IF x.drawn[i][1] \in written THEN Len(Taken(x.h[x.drawn[i][1]].seq, x.o)) ELSE 0

(* fails: the objects whose exceptions reached fail_safe, in order.          *)
FailsOk(x) == x.fails = Fl(x.h, x.r, x.o, 0, St0).st.fails
(* Interrupts are not failures: the call ends with them.                     *)
Interrupts == {"vpk.FailInterrupt", "vpk.FailExit"}
Entered(h) == [i \in 1..Len(h) |-> IF h[i].k = "fail" /\ h[i].c # "vpk.FailLate" THEN [h[i] EXCEPT !.seq = <<>>] ELSE h[i]]
Interrupted(x) == \E i \in Reach(Entered(x.h), x.r) : x.h[i].k = "fail" /\ x.h[i].c \in Interrupts

(* Objects that raise end a call without fail_safe.                          *)
Raises(x) == "fails" \notin Clauses /\ \E i \in Reach(x.h, x.r) : x.h[i].k = "fail"
(* The argument after the call: a.ids are the numbers the same objects had   *)
(* before, 0 for others.                                                     *)
Untouched(x) == /\ x.a.h = x.h /\ x.a.r = x.r
                /\ \A i \in 1..Len(x.a.ids) : x.a.ids[i] = i

(* again: parsed data restored several times.  again.before and after are    *)
(* the data, again.h one heap for the data and all results, again.rs their   *)
(* references.                                                               *)
Frozen == {"tuple", "fset", "enum", "module", "ntuple", "slice", "lib"}
AgainOk(x) ==
  LET a == x.again IN
  /\ a.before = a.after
  /\ \A i, j \in 1..Len(a.rs) : i < j => \A n \in Reach(a.h, a.rs[i]) \cap Reach(a.h, a.rs[j]) : a.h[n].k \in Frozen
  /\ \A i \in 3..Len(a.rs) : Iso(a.h, a.rs[2], a.h, a.rs[i])

(* the same graph written and read in other ways: variants of text layout    *)
(* and backend.                                                              *)
VariantsOk(x) ==
  /\ \A i \in 1..Len(x.ws) : JEq(Unpack(x.ws[i]), Unpack(x.w))
  /\ \A i \in 1..Len(x.bs) : Iso(x.b.h, x.b.r, x.bs[i].h, x.bs[i].r)

-----------------------------------------------------------------------------
Want(c) == c \in Clauses

Verdict(x) ==
  LET v == Now(View(x.h, x.o))
      vr == ViewRef(x.h, x.o, x.r)
      exp == IF x.o.keys THEN v ELSE Now(Coerced(v))
      w == Unpack(x.w)
      res == Restore(w, x.o, ClassTable(x.h))
  IN
  IF Want("fails") /\ Interrupted(x) THEN IF x.err = "interrupted" THEN "ok" ELSE "an interrupt was swallowed"
  ELSE IF Want("pure") /\ ~Untouched(x) THEN "argument changed"
  ELSE IF x.err # "" THEN IF Raises(x) THEN "ok" ELSE IF Impossible(x) THEN "excused" ELSE "raised: " \o x.err
  ELSE IF Want("again") /\ ~AgainOk(x) THEN IF Impossible(x) THEN "excused" ELSE "data or results of an earlier restore changed"
  ELSE IF Want("wire") /\ ~JEq(w, Flatten(x.h, x.r, x.o)) THEN IF KeysCollide(x) THEN "excused" ELSE "document differs from the format"
  ELSE IF Want("notags") /\ TagsIn(w) \cap PlainTags # {} THEN "tags in a plain document"
  ELSE IF Want("norefs") /\ "py/id" \in TagsIn(w) THEN "reference in the document"
  ELSE IF Want("iso") /\ ~Iso(exp, vr, x.b.h, x.b.r)
       THEN IF Impossible(x) THEN "excused" ELSE "decoded graph differs"
  ELSE IF Want("tree") /\ Acyclic(x.h, x.r) /\ ~SameTree(exp, vr, x.b.h, x.b.r) THEN "decoded content differs"
  ELSE IF Want("reader") /\ ~Iso(res.h, res.r, x.b.h, x.b.r)
       THEN IF Impossible(x) THEN "excused" ELSE "document was read differently"
  ELSE IF Want("steps") /\ \E i \in Reach(x.b.h, x.b.r) : x.b.h[i].calls # Steps(x.b.h[i])
       THEN "protocol steps differ"
  ELSE IF Want("ctx") /\ ~CtxOk(x) THEN "a handler saw another context"
  ELSE IF Want("layout") /\ ~LayoutOk(x) THEN "written in another layout"
  ELSE IF Want("warn") /\ ~WarnOk(x) THEN "wrong number of warnings"
  ELSE IF Want("drawn") /\ ~DrawnOk(x) THEN "an iterator was read further than written"
  ELSE IF Want("fails") /\ ~FailsOk(x) THEN "fail_safe was not called once per failure"
  ELSE IF Want("variants") /\ ~VariantsOk(x) THEN "layout or backend changed the meaning"
  ELSE "ok"

Judge == LET v == Verdict(Recs[l]) IN IF v = "ok" THEN TRUE ELSE PrintT(<<"BAD", l, v>>)
=============================================================================
