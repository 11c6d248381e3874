------------------------------ MODULE Registry ------------------------------
(* The handler registry as its history of calls.  A history is a sequence of *)
(* operations                                                                *)
(*   [op |-> "register", c |-> class, h |-> handler, base |-> BOOLEAN,       *)
(*    how |-> the way it is called]                                          *)
(*   [op |-> "unregister", c |-> class, ...]                                 *)
(*   [op |-> "refused", ...]   registration of something that is no class    *)
(* The tables are what an implementation keeps; Answer is what a lookup has  *)
(* to return, said in terms of the history alone.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Classes,   \* class names
  Bases,     \* Bases[c]: the proper base classes of c among Classes
  Handlers,
  Hows,      \* ways to register
  MaxOps,
  EmitAt,    \* histories of this length are printed
  Random     \* TRUE: a behaviour takes one operation at random in each state

None == "none"
IsBase(b, c) == b = c \/ b \in Bases[c]

-----------------------------------------------------------------------------
(* The tables: exact handlers, and base handlers in order of registration.   *)
T0 == [exact |-> [c \in Classes |-> None], base |-> <<>>]
BasePos(t, c) == {i \in 1..Len(t.base) : t.base[i][1] = c}
Apply(t, e) ==
  CASE e.op = "register" ->
         [exact |-> [t.exact EXCEPT ![e.c] = e.h],
          base |-> IF ~e.base THEN t.base
                   ELSE IF BasePos(t, e.c) = {} THEN Append(t.base, <<e.c, e.h>>)
                   ELSE [i \in 1..Len(t.base) |-> IF t.base[i][1] = e.c THEN <<e.c, e.h>> ELSE t.base[i]]]
    [] e.op = "unregister" ->
         [exact |-> [t.exact EXCEPT ![e.c] = None],
          base |-> SelectSeq(t.base, LAMBDA x : x[1] # e.c)]
    [] OTHER -> t
RECURSIVE Run(_,_)
Run(t, es) == IF es = <<>> THEN t ELSE Run(Apply(t, Head(es)), Tail(es))

Get(t, c) ==
  IF t.exact[c] # None THEN t.exact[c]
  ELSE LET f == {i \in 1..Len(t.base) : IsBase(t.base[i][1], c)}
       IN IF f = {} THEN None ELSE t.base[CHOOSE i \in f : \A k \in f : i <= k][2]
(* A name is known only through the class it belongs to.                     *)
GetName(t, c) == t.exact[c]

-----------------------------------------------------------------------------
(* The same from the history alone.                                          *)
Alive(es, c) ==   \* registrations of c after it was last unregistered
  {i \in 1..Len(es) : es[i].op = "register" /\ es[i].c = c
                      /\ \A k \in (i+1)..Len(es) : ~(es[k].op = "unregister" /\ es[k].c = c)}
Last(s) == CHOOSE i \in s : \A k \in s : k <= i
First(s) == CHOOSE i \in s : \A k \in s : i <= k
AliveBase(es, c) == {i \in Alive(es, c) : es[i].base}
Answer(es, c) ==
  IF Alive(es, c) # {} THEN es[Last(Alive(es, c))].h
  ELSE LET f == {b \in Bases[c] : AliveBase(es, b) # {}} IN
       IF f = {} THEN None
       ELSE LET b == CHOOSE b \in f : \A x \in f : First(AliveBase(es, b)) <= First(AliveBase(es, x))
            IN es[Last(AliveBase(es, b))].h
AnswerName(es, c) == IF Alive(es, c) = {} THEN None ELSE es[Last(Alive(es, c))].h

-----------------------------------------------------------------------------
VARIABLES hist
Init == hist = <<>>
Ops == [op : {"register"}, c : Classes, h : Handlers, base : BOOLEAN, how : Hows]
       \cup [op : {"unregister"}, c : Classes, h : {None}, base : {FALSE}, how : {"call"}]
       \cup [op : {"refused"}, c : {CHOOSE c \in Classes : TRUE}, h : {CHOOSE h \in Handlers : TRUE}, base : {FALSE}, how : {"call"}]
Fit == {e \in Ops : e.how = "handles" => ~e.base}
Next == Len(hist) < MaxOps /\ \E e \in (IF Random THEN {RandomElement(Fit)} ELSE Fit) : hist' = Append(hist, e)
Spec == Init /\ [][Next]_hist

Without(es, c) == SelectSeq(es, LAMBDA e : e.c # c \/ e.op = "refused")
Laws ==
  LET t == Run(T0, hist) IN
  \* the tables answer as the history demands
  /\ \A c \in Classes : Get(t, c) = Answer(hist, c) /\ GetName(t, c) = AnswerName(hist, c)
  \* a class that was unregistered has left no trace
  /\ \A c \in Classes : Alive(hist, c) = {} => t = Run(T0, Without(hist, c))
  \* every base handler also has an exact one
  /\ \A i \in 1..Len(t.base) : t.exact[t.base[i][1]] # None
  /\ Len(hist) = EmitAt => PrintT(<<"CASE", ToJson(hist)>>)
=============================================================================
