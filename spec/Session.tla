------------------------------ MODULE Session ------------------------------
(* A context that is used for one operation after another.                   *)
(*                                                                           *)
(* Writing contexts: an operation writes one of several values that share    *)
(* parts; some values raise while they are written (fate "raise").           *)
(* Reading contexts: an operation reads a document, possibly with classes of *)
(* its own (give), possibly keeping what earlier operations made known       *)
(* (keep); some documents raise.                                             *)
(*                                                                           *)
(* What an implementation carries from one operation to the next is left     *)
(* over: the numbered objects and the classes, complete after an operation   *)
(* that returned, some part of them after one that raised.  An operation     *)
(* that does not keep has to start from nothing, whatever is left over.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Side,     \* "write" or "read"
          Operands, \* names of values or documents
          Given,    \* classes an operation may be given
          Hows, MaxOps, EmitAt, Random

VARIABLES left, hist
vars == <<left, hist>>
Nothing == [objs |-> <<>>, classes |-> {}, sound |-> TRUE]
Init == left = Nothing /\ hist = <<>>

Ops == [d : Operands, keep : IF Side = "read" THEN BOOLEAN ELSE {FALSE}, give : SUBSET Given, fate : {"ok", "raise"}, how : Hows]
(* What an operation starts with, and what it leaves.                        *)
Base(l, e) == IF e.keep THEN l ELSE Nothing
During(l, e) == [objs |-> Base(l, e).objs \o <<e.d>>, classes |-> Base(l, e).classes \cup e.give, sound |-> TRUE]
After(l, e) == [During(l, e) EXCEPT !.sound = (e.fate = "ok")]
(* What the operation knows is what its result depends on.                   *)
Known(l, e) == [objs |-> Base(l, e).objs, classes |-> During(l, e).classes]

Fit(l) == {e \in Ops : e.keep => l.sound}
Next == /\ Len(hist) < MaxOps
        /\ \E e \in (IF Random THEN {RandomElement(Fit(left))} ELSE Fit(left)) :
             left' = After(left, e) /\ hist' = Append(hist, e)
Spec == Init /\ [][Next]_vars

Laws ==
  \* an operation that does not keep is independent of all earlier ones
  /\ \A e \in Fit(left) : ~e.keep => Known(left, e) = Known(Nothing, e)
  \* one that keeps knows exactly the operations since the last that did not
  /\ LET cuts == {i \in 1..Len(hist) : ~hist[i].keep}
         from == IF cuts = {} THEN 1 ELSE CHOOSE i \in cuts : \A k \in cuts : k <= i
     IN left.objs = [i \in 1..(Len(hist) - from + 1) |-> hist[from + i - 1].d]
  /\ Len(hist) = EmitAt => PrintT(<<"CASE", ToJson(hist)>>)
=============================================================================
