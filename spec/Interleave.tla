----------------------------- MODULE Interleave -----------------------------
(* Calls that run at the same time.  Each call goes over objects in a fixed  *)
(* order (Scripts[p]), giving each new one the next number of its own        *)
(* context.  Between two objects other calls may run: a step of a call in    *)
(* another thread, or the whole of a call that is made from within.          *)
(* A schedule is the sequence of <<p, 0>> (call p goes on until it next      *)
(* hands over) and <<p, q>> (call p makes call q and waits for it).          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Scripts, NestOn, EmitOn, Random

P == 1..Len(Scripts)
VARIABLES pc, ctx, out, sched
vars == <<pc, ctx, out, sched>>

Init == /\ pc = [p \in P |-> 0]
        /\ ctx = [p \in P |-> <<>>]
        /\ out = [p \in P |-> <<>>]
        /\ sched = <<>>

Where(s, x) == {i \in 1..Len(s) : s[i] = x}
(* One object: what the context is afterwards, and what is written.          *)
Visit(c, x) == IF Where(c, x) = {} THEN [c |-> Append(c, x), w |-> <<"new", x>>]
               ELSE [c |-> c, w |-> <<"ref", CHOOSE i \in Where(c, x) : TRUE>>]
RECURSIVE Whole(_,_,_)
Whole(s, c, w) == IF s = <<>> THEN [c |-> c, w |-> w]
                  ELSE LET v == Visit(c, Head(s)) IN Whole(Tail(s), v.c, Append(w, v.w))
Solo(p) == Whole(Scripts[p], <<>>, <<>>)

Step(p) == /\ pc[p] < Len(Scripts[p])
           /\ LET v == Visit(ctx[p], Scripts[p][pc[p] + 1])
              IN /\ ctx' = [ctx EXCEPT ![p] = v.c]
                 /\ out' = [out EXCEPT ![p] = Append(@, v.w)]
           /\ pc' = [pc EXCEPT ![p] = @ + 1]
           /\ sched' = Append(sched, <<p, 0>>)
Nest(p, q) == /\ NestOn /\ pc[p] \in 1..(Len(Scripts[p]) - 1) /\ pc[q] = 0 /\ Scripts[q] # <<>>
              /\ pc' = [pc EXCEPT ![q] = Len(Scripts[q])]
              /\ ctx' = [ctx EXCEPT ![q] = Solo(q).c]
              /\ out' = [out EXCEPT ![q] = Solo(q).w]
              /\ sched' = Append(sched, <<p, q>>)
Moves == {<<p, 0>> : p \in {x \in P : pc[x] < Len(Scripts[x])}}
         \cup {<<p, q>> \in P \X P : p # q /\ NestOn /\ pc[p] \in 1..(Len(Scripts[p]) - 1) /\ pc[q] = 0}
Next == Moves # {} /\ \E m \in (IF Random THEN {RandomElement(Moves)} ELSE Moves) :
          IF m[2] = 0 THEN Step(m[1]) ELSE Nest(m[1], m[2])
Spec == Init /\ [][Next]_vars

Done == \A p \in P : pc[p] = Len(Scripts[p])
Laws ==
  \* a call that is under way has written what it writes alone so far
  /\ \A p \in P : out[p] = SubSeq(Solo(p).w, 1, pc[p])
  /\ (EmitOn /\ Done) => PrintT(<<"CASE", ToJson(sched)>>)
=============================================================================
