------------------------------ MODULE Classes ------------------------------
(* Class definitions and their instances: which attributes an instance has,  *)
(* how an encoder that walks over dictionaries and slots finds them, and     *)
(* where a decoder that sets them by name puts them.                         *)
(*                                                                           *)
(* A hierarchy is a sequence of classes, bases first; the last one is the    *)
(* class of the instance.  It is a chain, or (wide) the last class has all   *)
(* others as its direct bases.  The first classes may extend a builtin type  *)
(* (base), whose content is written along with the attributes.  A class has  *)
(*   sl   "none", or the set of names in its __slots__ ("__dict__" included) *)
(*   at   names of plain class attributes                                    *)
(*   pr   names of read-only properties                                      *)
(*   ex   "none", or the set of names in its _jsonpickle_exclude             *)
(* An instance is a set of places that hold a value: <<"d", 0, name>> in the *)
(* instance dictionary, <<"s", i, name>> in the slot of class i, and         *)
(* <<"d", i, "__q">> in the dictionary under the name private to class i.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

None == "none"
Private == "__q"
Exclude == "_jsonpickle_exclude"

Slots(c) == IF c.sl = {None} THEN {} ELSE c.sl \ {"__dict__"}
HasDict(h) == \E i \in 1..Len(h.cs) : h.cs[i].sl = {None} \/ "__dict__" \in h.cs[i].sl

(* The order in which attributes are looked up: leaf first.  In a wide       *)
(* hierarchy the other classes are given as bases in reverse order, so that  *)
(* the order is the same.                                                    *)
Defines(c, n) == n \in Slots(c) \/ n \in c.at \/ n \in c.pr
Definers(h, n) == {i \in 1..Len(h.cs) : Defines(h.cs[i], n)}
First(s) == CHOOSE i \in s : \A j \in s : j <= i
Lookup(h, n) ==
  LET ds == Definers(h, n) IN
  IF ds = {} THEN <<"nothing", 0>>
  ELSE LET i == First(ds) IN
       IF n \in Slots(h.cs[i]) THEN <<"slot", i>> ELSE IF n \in h.cs[i].at THEN <<"class", i>> ELSE <<"property", i>>

(* Places that ordinary assignments can fill.                                *)
Places(h, names) ==
  LET dict == HasDict(h) IN
  UNION {{<<"s", i, n>> : n \in {m \in Slots(h.cs[i]) \cap names : m = Private \/ Lookup(h, m) = <<"slot", i>>}} : i \in 1..Len(h.cs)}
  \cup (IF ~dict THEN {} ELSE
          {<<"d", 0, n>> : n \in {m \in names \ {Private} : Lookup(h, m)[1] \in {"nothing", "class"}}}
          \cup (IF Private \in names THEN {<<"d", i, Private>> : i \in {j \in 1..Len(h.cs) : Private \notin Slots(h.cs[j])}} ELSE {}))

(* The list of excluded names in force: that of the instance, else of the    *)
(* first class that has one.                                                 *)
Excluded(h, x) ==
  IF x.ex # {None} THEN x.ex
  ELSE LET s == {i \in 1..Len(h.cs) : h.cs[i].ex # {None}} IN IF s = {} THEN {} ELSE h.cs[First(s)].ex

(* The name under which a place is written.  Private names are known under   *)
(* their mangled form, except for the slots of the class itself.             *)
NameOf(h, p) ==
  IF p[3] # Private THEN <<0, p[3]>>
  ELSE IF p = <<"s", Len(h.cs), Private>> THEN <<0, Private>> ELSE <<p[2], Private>>

-----------------------------------------------------------------------------
(* What has to be written: all places of the instance but the excluded ones. *)
(* A list of excluded names held by the instance is one of its attributes.   *)
Held(x) == x.at \cup (IF x.ex = {None} THEN {} ELSE {<<"d", 0, Exclude>>})
Kept(h, x) == {p \in Held(x) : NameOf(h, p) \notin {<<0, n>> : n \in Excluded(h, x)}}
Written(h, x) == {NameOf(h, p) : p \in Kept(h, x)}

-----------------------------------------------------------------------------
(* An encoder that takes the dictionary, then asks for every name found in   *)
(* some __slots__, and a decoder that assigns the names to a blank instance. *)
SlotNames(h) == UNION {{<<(IF n = Private /\ i # Len(h.cs) THEN i ELSE 0), n>> : n \in Slots(h.cs[i])} : i \in 1..Len(h.cs)}
(* where asking for a name finds a value; class attributes are not values of *)
(* the instance                                                              *)
Find(h, x, n) ==
  IF n[2] = Private THEN {<<"s", (IF n[1] = 0 THEN Len(h.cs) ELSE n[1]), Private>>} \cap Held(x)
  ELSE LET f == Lookup(h, n[2]) IN
       IF f[1] = "slot" THEN {<<"s", f[2], n[2]>>} \cap Held(x)
       ELSE {}
Walk(h, x) ==
  LET ex == Excluded(h, x)
      byDict == {p \in Held(x) : p[1] = "d" /\ NameOf(h, p) \notin {<<0, n>> : n \in ex}}
      bySlot == UNION {Find(h, x, n) : n \in {m \in SlotNames(h) : ~(m[1] = 0 /\ m[2] \in ex)}}
  IN byDict \cup bySlot
Assign(h, n) ==
  IF n[2] = Private THEN LET i == IF n[1] = 0 THEN Len(h.cs) ELSE n[1] IN
    (IF Private \in Slots(h.cs[i]) THEN <<"s", i, Private>> ELSE <<"d", i, Private>>)
  ELSE LET f == Lookup(h, n[2]) IN IF f[1] = "slot" THEN <<"s", f[2], n[2]>> ELSE <<"d", 0, n[2]>>
ReadBack(h, names) == {Assign(h, n) : n \in names}

-----------------------------------------------------------------------------
(* Hierarchies grow by one class at a time; every hierarchy is tried with    *)
(* every (or a random) instance.                                             *)
CONSTANTS Names, MaxClasses, Random, SlotSets, Forms, Bases
VARIABLES h, x

Pick(S) == IF Random THEN {RandomElement(S)} ELSE S
(* Only one of several direct bases may have slots of its own; dataclasses   *)
(* cannot override a field by a property, and are all frozen or none is; a   *)
(* second private name would make a list of excluded names ambiguous; tuples *)
(* cannot have slots, and those of dictionaries are a known finding.         *)
Sound(g) ==
  LET n == Len(g.cs) IN
  /\ g.wide => Cardinality({i \in 1..(n - 1) : Slots(g.cs[i]) # {}}) <= 1 /\ n > 2
  /\ g.wide => Cardinality({i \in 1..n : "__dict__" \in g.cs[i].sl}) <= 1
  /\ g.form # "plain" => \A i \in 1..n : g.cs[i].pr = {} /\ "__dict__" \notin g.cs[i].sl
  /\ g.base # "object" => g.form = "plain"
  /\ g.base \in {"dict", "tuple"} => \A i \in 1..n : g.cs[i].sl \in {{None}, {}}
  /\ (\E i \in 1..n : Private \in g.cs[i].ex) => \A i \in 1..(n - 1) : Private \notin Slots(g.cs[i])
  /\ \A i \in 1..n : "__dict__" \in g.cs[i].sl => \A j \in 1..n : j # i => g.cs[j].sl # {None} /\ "__dict__" \notin g.cs[j].sl

Nobody == [at |-> {}, ex |-> {None}, on |-> FALSE]
Init == /\ h \in [cs : {<<>>}, wide : BOOLEAN, form : Forms, base : Bases]
        /\ x = Nobody
AddClass == /\ Len(h.cs) < MaxClasses /\ ~x.on
            /\ \E sl \in Pick({{None}} \cup SlotSets) :
               \E at \in Pick(SUBSET (Names \ (sl \cup {Private}))) :
               \E pr \in Pick({{}} \cup {{n} : n \in Names \ (sl \cup at \cup {Private})}) :
               \E ex \in Pick({{None}} \cup SUBSET Names) :
                 h' = [h EXCEPT !.cs = Append(@, [sl |-> sl, at |-> at, pr |-> pr, ex |-> ex])]
            /\ UNCHANGED x
MakeInstance ==
            /\ ~x.on /\ h.cs # <<>> /\ Sound(h)
            /\ \E at \in Pick(SUBSET Places(h, Names)) :
               \E ex \in Pick({{None}} \cup (IF HasDict(h) /\ h.form = "plain" THEN SUBSET (Names \ {Private}) ELSE {})) :
                 x' = [at |-> at, ex |-> ex, on |-> TRUE]
            /\ UNCHANGED h
Next == AddClass \/ MakeInstance
CSpec == Init /\ [][Next]_<<h, x>>

(* The walk finds exactly what has to be written, under distinct names, and  *)
(* assigning the names fills exactly the places the values came from.        *)
Laws ==
  x.on =>
  /\ Walk(h, x) = Kept(h, x)
  /\ Cardinality(Written(h, x)) = Cardinality(Kept(h, x))
  /\ ReadBack(h, Written(h, x)) = Kept(h, x)
  /\ PrintT(<<"CASE", ToJson([h |-> h, x |-> x])>>)
=============================================================================
