------------------------------ MODULE Families ------------------------------
(* Large graphs of regular shape: long and wide containers, deep nesting,    *)
(* many references, rings and ladders.  Each is one initial state; the       *)
(* theorems of Graphs are checked on it and it is printed for replay.        *)
EXTENDS Graphs

CONSTANTS Sizes, Depths, Members

Val == Atom("pool", "any")
Str(i) == Atom("str", "key" \o ToString(i))

(* A node of kind k with one member r.                                       *)
Wrap(k, r) ==
  CASE k \in {"list", "tuple", "set", "listsub", "setsub", "fset", "tupsub", "state", "handler", "newargs", "reduce"}
         -> Node(k, k, <<r>>, <<>>, <<>>, <<>>)
    [] k \in {"dict", "dictsub", "newargsex"} -> Node(k, k, <<>>, <<>>, <<<<Str(1), r, "~">>>>, <<>>)
    [] k = "ddict" -> Node(k, k, <<Atom("type", "builtins.list")>>, <<>>, <<<<Str(1), r, "~">>>>, <<>>)
    [] k = "ntuple" -> Node(k, k, <<r, r>>, <<>>, <<>>, <<>>)
    [] OTHER -> Node(k, k, <<>>, <<>>, <<>>, <<<<"a", r>>>>)

(* k1 > k2 > k1 > ... > value                                                *)
Deep(k1, k2, n) == [i \in 1..n |-> Wrap(IF i % 2 = 1 THEN k1 ELSE k2, IF i = n THEN Val ELSE Nd(i + 1))]

(* a container of n members                                                  *)
Wide(k, m, n) ==
  LET kids == [i \in 1..n |-> Nd(i + 1)] IN
  <<CASE k \in {"dict", "dictsub"} -> Node(k, k, <<>>, <<>>, [i \in 1..n |-> <<Str(i), kids[i], "~">>], <<>>)
      [] k = "reduce" -> Node(k, k, <<>>, kids, <<>>, <<>>)
      [] OTHER -> Node(k, k, kids, <<>>, <<>>, <<>>)>>
  \o [i \in 1..n |-> Wrap(m, Val)]

(* n objects, then references to all of them in reverse order                *)
Back2(m, n) ==
  <<Node("list", "list", [i \in 1..(2*n) |-> IF i <= n THEN Nd(i + 1) ELSE Nd(2*n - i + 2)], <<>>, <<>>, <<>>)>>
  \o [i \in 1..n |-> Wrap(m, Val)]

(* every object refers to its predecessor and to the root                    *)
Comb(m, n) ==
  <<Node("list", "list", [i \in 1..n |-> Nd(i + 1)], <<>>, <<>>, <<>>)>>
  \o [i \in 1..n |-> Node("obj", "obj", <<>>, <<>>, <<>>,
                          <<<<"a", IF i = 1 THEN Nd(1) ELSE Nd(i)>>, <<"b", Nd(1)>>>>)]

Ring(n) == [i \in 1..n |-> Wrap("obj", Nd(IF i = n THEN 1 ELSE i + 1))]
Ladder(n) == [i \in 1..n |-> IF i = n THEN Wrap("obj", Val)
                             ELSE Node("list", "list", <<Nd(i + 1), Nd(i + 1)>>, <<>>, <<>>, <<>>)]

(* n dictionaries (of kind d) with one key of kind m each, all with the same *)
(* content, and references to a shared object after them                     *)
Keyed(d, m, n, r) ==
  LET s == 2*n + 2
      key(i) == IF m = "tuple" \/ r THEN Wrap(m, Nd(s)) ELSE Wrap(m, Val)
  IN <<Node("list", "list", [i \in 1..(n+2) |-> IF i <= n THEN Nd(i + 1) ELSE Nd(s)], <<>>, <<>>, <<>>)>>
     \o [i \in 1..n |-> Node(d, d, IF d = "ddict" THEN <<Atom("type", "builtins.list")>> ELSE <<>>, <<>>,
                               <<<<Nd(n + i + 1), IF r THEN Nd(s) ELSE Val, "~">>>>, <<>>)]
     \o [i \in 1..n |-> key(i)]
     \o <<Node("obj", "obj", <<>>, <<>>, <<>>, <<>>)>>

(* What has no plain view; and what grows too much when written out in full. *)
Full == \E x \in Opts : ~x.unp \/ ~x.refs
Left == IF \E x \in Opts : ~x.unp THEN {"reduce", "fset"} ELSE {}

Graph ==
  {Deep(k1, k2, n) : k1 \in {k \in Members : k \notin {"set", "setsub", "fset"}},
                     k2 \in {"list", "obj", "tuple", "dict"}, n \in Depths}
  \cup {Wide(k, m, n) : k \in {"list", "tuple", "dict", "dictsub", "listsub", "reduce"} \ Left, m \in Members, n \in Sizes}
  \cup {Wide(k, m, n) : k \in {"set", "fset", "setsub"} \ Left, m \in {"obj", "state", "reduce"} \ Left, n \in Sizes}
  \cup {Back2(m, n) : m \in Members \ {"tuple", "set"}, n \in Sizes}
  \cup {Keyed(d, m, n, r) : d \in {"dict", "dictsub", "ddict"}, m \in NodeKeys \cap Members, n \in {k \in Sizes : k < 100}, r \in BOOLEAN}
  \cup {Comb("obj", n) : n \in Sizes}
  \cup {Ring(n) : n \in Depths}
  \cup {Ladder(n) : n \in {d \in Depths : d <= 6 \/ ~Full}}
(* one step to each of them, so that they are spread over the workers        *)
FInit == heap = <<>> /\ from = <<>> /\ todo = <<RootSlot>> /\ root = Hole /\ o \in Opts
FNext == /\ todo # <<>> /\ todo' = <<>> /\ root' = Nd(1) /\ heap' \in Graph
         /\ UNCHANGED <<from, o>>
FSpec == FInit /\ [][FNext]_vars
=============================================================================
