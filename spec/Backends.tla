------------------------------ MODULE Backends ------------------------------
(* The backend manager as its history of calls.                              *)
(*                                                                           *)
(* Modules[n] says what becomes of importing n: "ok"; "noexc", a module that *)
(* has no exception class of its own; "absent", which cannot be imported;    *)
(* "broken", a submodule that its package does not have.                     *)
(* Operations:                                                               *)
(*   load(n, v, f)    v: the decoder's exceptions, "value" (the default),    *)
(*                    "own" (named, part of the module) or "wide" (a class); *)
(*                    f: the functions asked for, "main", "alt", or names    *)
(*                    that the module lacks, "nodumps" or "noloads"          *)
(*   remove(n)  prefer(n)  fallthrough(v)  encopts(n, v)  decopts(n, v)      *)
(*   encode(fails, v)  decode(fails)   v: options of this call               *)
(* where fails gives for each backend how it fails: "" not at all, or the    *)
(* exception it raises.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Names, Modules, Builtin, MaxOps, EmitAt, OpSet, Probes,
          Random     \* TRUE: a behaviour takes one operation at random in each state

Absent == "none"
(* What the manager keeps: order = names of the loaded backends, most        *)
(* preferred first; enc and dec = options by name; exc = exceptions by name. *)
(* fn = functions by name.  Options of backends that are not loaded are kept *)
(* as well.                                                                  *)
B0 == [order |-> <<>>, enc |-> [n \in Names |-> Absent], dec |-> [n \in Names |-> Absent],
       exc |-> [n \in Names |-> Absent], fn |-> [n \in Names |-> Absent], fall |-> TRUE]
InSeq(s, x) == \E i \in 1..Len(s) : s[i] = x
Loaded(b, n) == InSeq(b.order, n)
Remove(b, n) == [b EXCEPT !.order = SelectSeq(@, LAMBDA x : x # n), !.enc[n] = Absent, !.dec[n] = Absent,
                           !.exc[n] = Absent, !.fn[n] = Absent]

(* Loading: what cannot be imported changes nothing; what lacks a function   *)
(* is removed entirely, also when it was loaded before.                      *)
Load(b, n, e, f) ==
  IF Modules[n] \in {"absent", "broken"} THEN [b |-> b, r |-> "False"]
  ELSE IF f \in {"nodumps", "noloads"} \/ (Modules[n] = "noexc" /\ e = "own") THEN [b |-> Remove(b, n), r |-> "False"]
  ELSE [b |-> [b EXCEPT !.order = IF Loaded(b, n) THEN @ ELSE Append(@, n),
                        !.enc[n] = IF @ = Absent THEN "empty" ELSE @,
                        !.dec[n] = IF @ = Absent THEN "empty" ELSE @,
                        !.exc[n] = e, !.fn[n] = f],
        r |-> "True"]

RECURSIVE LoadAll(_,_)
LoadAll(b, ns) == IF ns = <<>> THEN b ELSE LoadAll(Load(b, Head(ns), "value", "main").b, Tail(ns))
(* A new manager has loaded the builtin backends, with options of their own. *)
Start == LET b == LoadAll(B0, Builtin) IN
         [b EXCEPT !.enc = [n \in Names |-> IF InSeq(Builtin, n) THEN "default:" \o n ELSE @[n]]]

Prefer(b, n) == IF Loaded(b, n) THEN [b |-> [b EXCEPT !.order = <<n>> \o SelectSeq(@, LAMBDA x : x # n)], r |-> "None"]
                ELSE [b |-> b, r |-> "AssertionError"]

-----------------------------------------------------------------------------
(* Calls of backends, and the result.  A result is the name of the backend   *)
(* that answered, or the exception.                                          *)
(* Backends fail with "value" (a ValueError), "own" (their own kind of it),  *)
(* "other" (another exception) or "exit" (no ordinary exception).            *)
(* exceptions a decoder is allowed to fail with *)
Excuses(e, f) == CASE e = "value" -> f \in {"value", "own"}   \* "own" is a kind of ValueError
                   [] e = "own" -> f = "own"
                   [] e = "wide" -> f \in {"value", "own", "other"}
                   [] OTHER -> FALSE
GoesOn(b, n, kind, f) == IF kind = "encode" THEN f # "exit" ELSE Excuses(b.exc[n], f)
RECURSIVE Try(_,_,_,_,_)
Try(b, i, kind, fails, calls) ==
  LET n == b.order[i]
      opts == IF kind = "encode" THEN b.enc[n] ELSE b.dec[n]
      seen == Append(calls, <<n, b.fn[n], opts>>)
      f == fails[n]
  IN IF f = "" THEN [calls |-> seen, r |-> n]
     ELSE IF b.fall /\ i < Len(b.order) /\ GoesOn(b, n, kind, f) THEN Try(b, i + 1, kind, fails, seen)
     ELSE [calls |-> seen, r |-> f]
Call(b, kind, fails) ==
  IF b.order = <<>> THEN [calls |-> <<>>, r |-> "AssertionError"] ELSE Try(b, 1, kind, fails, <<>>)

(* One operation: the new state, the result, the calls backends received.    *)
Apply(b, e) ==
  CASE e.op = "load" -> LET x == Load(b, e.n, e.v, e.f) IN [b |-> x.b, r |-> x.r, calls |-> <<>>]
    [] e.op = "remove" -> [b |-> Remove(b, e.n), r |-> "None", calls |-> <<>>]
    [] e.op = "prefer" -> LET x == Prefer(b, e.n) IN [b |-> x.b, r |-> x.r, calls |-> <<>>]
    [] e.op = "fallthrough" -> [b |-> [b EXCEPT !.fall = (e.v = "on")], r |-> "None", calls |-> <<>>]
    [] e.op = "encopts" -> [b |-> [b EXCEPT !.enc[e.n] = e.v], r |-> "None", calls |-> <<>>]
    [] e.op = "decopts" -> [b |-> [b EXCEPT !.dec[e.n] = e.v], r |-> "None", calls |-> <<>>]
    [] OTHER -> LET x == Call(b, e.op, e.fails) IN [b |-> b, r |-> x.r, calls |-> x.calls]

-----------------------------------------------------------------------------
VARIABLES b, hist
vars == <<b, hist>>
Init == b = Start /\ hist = <<>>
Next == Len(hist) < MaxOps /\ \E e \in (IF Random THEN {RandomElement(OpSet)} ELSE OpSet) : b' = Apply(b, e).b /\ hist' = Append(hist, e)
Spec == Init /\ [][Next]_vars

Position(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
Laws ==
  \* no backend is listed twice, and none is half registered
  /\ \A i, j \in 1..Len(b.order) : i # j => b.order[i] # b.order[j]
  /\ \A n \in Names : Loaded(b, n) <=> b.exc[n] # Absent /\ b.fn[n] # Absent
  /\ \A n \in Names : Loaded(b, n) => b.enc[n] # Absent /\ b.dec[n] # Absent
  /\ \A n \in Names : Modules[n] \in {"absent", "broken"} => ~Loaded(b, n)
  \* without fallthrough exactly one backend is asked; with it, no backend is
  \* asked after one that answered
  /\ \A e \in Probes :
       LET x == Call(b, e.op, e.fails) IN
       /\ (~b.fall /\ b.order # <<>>) => Len(x.calls) = 1
       /\ \A i \in 1..(Len(x.calls) - 1) : e.fails[x.calls[i][1]] # ""
       /\ x.r \in Names => x.r = x.calls[Len(x.calls)][1]
  /\ Len(hist) = EmitAt => PrintT(<<"CASE", ToJson(hist)>>)
=============================================================================
