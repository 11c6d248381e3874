------------------------------- MODULE Arrays ------------------------------
(* Arrays over shared memory: arrays that own a buffer, and views of them.   *)
(*                                                                           *)
(* A type is <<name, item size, name in the other byte order, fields>>,      *)
(* where fields is a sequence of <<field name, offset, type name>>.  An      *)
(* array has                                                                 *)
(*   own   number of the array that owns the memory (itself for owners)      *)
(*   off   position of its first element in that memory, in bytes            *)
(*   sh    lengths of its axes        st   strides of its axes, in bytes     *)
(*   t     name of its type           how  how it was made                   *)
(*   w     whether it may be written to                                      *)
(* Where the bytes of an element lie is all that matters for aliasing.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Types
Named(n) == CHOOSE t \in Types : t[1] = n
Item(n) == Named(n)[2]

RECURSIVE Size(_), CStrides(_,_), FStrides(_,_), Offsets(_,_,_)
Size(sh) == IF sh = <<>> THEN 1 ELSE Head(sh) * Size(Tail(sh))
CStrides(sh, item) == IF sh = <<>> THEN <<>> ELSE <<item * Size(Tail(sh))>> \o CStrides(Tail(sh), item)
FStrides(sh, item) == IF sh = <<>> THEN <<>> ELSE <<item>> \o FStrides(Tail(sh), item * Head(sh))
(* Positions of all elements, last axis fastest.                             *)
Offsets(off, sh, st) ==
  IF sh = <<>> THEN <<off>>
  ELSE LET RECURSIVE Along(_)
           Along(i) == IF i = Head(sh) THEN <<>> ELSE Offsets(off + i * Head(st), Tail(sh), Tail(st)) \o Along(i + 1)
       IN Along(0)
Cells(a) == Offsets(a.off, a.sh, a.st)

(* Axes of length one do not count, and arrays without elements are always   *)
(* contiguous.                                                               *)
Contiguous(a, want) == Size(a.sh) = 0 \/ \A i \in 1..Len(a.sh) : a.sh[i] = 1 \/ a.st[i] = want[i]
IsC(a) == Contiguous(a, CStrides(a.sh, Item(a.t)))
IsF(a) == Contiguous(a, FStrides(a.sh, Item(a.t)))

-----------------------------------------------------------------------------
(* The written form of a view and its meaning: the owner, where the view     *)
(* starts, and its strides unless they follow from the shape.                *)
Written(a) == [own |-> a.own, off |-> a.off, sh |-> a.sh, st |-> IF IsC(a) THEN <<>> ELSE <<a.st>>]
Read(w, item) == Offsets(w.off, w.sh, IF w.st = <<>> THEN CStrides(w.sh, item) ELSE w.st[1])

-----------------------------------------------------------------------------
Except(s, i, x) == [s EXCEPT ![i] = x]
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Insert(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
RECURSIVE Back(_)
Back(s) == IF s = <<>> THEN <<>> ELSE Append(Back(Tail(s)), Head(s))

Owner(n, t, sh, f) == [own |-> n, off |-> 0, sh |-> sh, st |-> IF f THEN FStrides(sh, Item(t)) ELSE CStrides(sh, Item(t)),
                       t |-> t, w |-> TRUE, how |-> <<"new", IF f THEN "F" ELSE "C">>]
View(a, i, op, off, sh, st, t) == [own |-> a.own, off |-> off, sh |-> sh, st |-> st, t |-> t, w |-> a.w, how |-> <<"view", i>> \o op]
Lock(a, lock) == [a EXCEPT !.w = @ /\ ~lock]

(* a[::] along one axis, from start by step; all elements that are there     *)
Taken(n, start, step) == IF step > 0 THEN (n - start + step - 1) \div step ELSE (start + (-step)) \div (-step)
SlicesOf(a, i) ==
  UNION {{View(a, i, <<"slice", ax, start, step, k>>, a.off + start * a.st[ax], Except(a.sh, ax, k), Except(a.st, ax, a.st[ax] * step), a.t) :
            k \in {m \in {Taken(a.sh[ax], start, step), Taken(a.sh[ax], start, step) - 1} : m >= 0}} :
         ax \in 1..Len(a.sh), start \in 0..3, step \in {-2, -1, 1, 2}}
Slices(a, i) == {v \in SlicesOf(a, i) : v.how[5] < a.sh[v.how[4]]}
Others(a, i) ==
  {View(a, i, <<"transpose">>, a.off, Back(a.sh), Back(a.st), a.t)}
  \cup {Lock(View(a, i, <<"repeat", ax, k>>, a.off, Insert(a.sh, ax, k), Insert(a.st, ax, 0), a.t), TRUE) : ax \in 1..(Len(a.sh) + 1), k \in {2, 3}}
  \cup {View(a, i, <<"axis", ax>>, a.off, Insert(a.sh, ax, 1), Insert(a.st, ax, 0), a.t) : ax \in 1..(Len(a.sh) + 1)}
  \cup UNION {{View(a, i, <<"index", ax, j>>, a.off + j * a.st[ax], Without(a.sh, ax), Without(a.st, ax), a.t) : j \in 0..(a.sh[ax] - 1)} : ax \in 1..Len(a.sh)}
  \cup (IF IsC(a) THEN {View(a, i, <<"flat">>, a.off, <<Size(a.sh)>>, <<Item(a.t)>>, a.t)} ELSE {})
  \cup (IF Named(a.t)[3] = "" THEN {} ELSE {View(a, i, <<"as", Named(a.t)[3]>>, a.off, a.sh, a.st, Named(a.t)[3])})
  \cup (IF IsC(a) /\ a.sh # <<>> /\ Size(a.sh) > 0 /\ Named(a.t)[4] = <<>> /\ a.t # "?"
        THEN {View(a, i, <<"as", "u1">>, a.off, [a.sh EXCEPT ![Len(a.sh)] = @ * Item(a.t)],
                   CStrides([a.sh EXCEPT ![Len(a.sh)] = @ * Item(a.t)], 1), "u1")} ELSE {})
  \cup {View(a, i, <<"field", Named(a.t)[4][j][1]>>, a.off + Named(a.t)[4][j][2], a.sh, a.st, Named(a.t)[4][j][3]) : j \in 1..Len(Named(a.t)[4])}

-----------------------------------------------------------------------------
(* A heap of arrays grows by an owner or a view; a graph is a sequence of    *)
(* arrays of the heap, scalars and types.                                    *)
CONSTANTS Shapes, MaxArrays, MaxAxes, MaxSize, MaxMembers, Random, Lone, Locks
VARIABLES heap, graph

Pick(S) == IF Random THEN {RandomElement(S)} ELSE S
Init == heap = <<>> /\ graph = <<>>
NewOwner == /\ Len(heap) < MaxArrays /\ graph = <<>>
            /\ \E t \in Pick({x[1] : x \in Types}) : \E sh \in Pick(Shapes) : \E f \in Pick(BOOLEAN) : \E k \in Pick(Locks) :
                 heap' = Append(heap, Lock(Owner(Len(heap) + 1, t, sh, f), k))
            /\ UNCHANGED graph
NewView == /\ Len(heap) < MaxArrays /\ heap # <<>> /\ graph = <<>>
           /\ \E i \in Pick(1..Len(heap)) : heap[i].t # "O" /\
              \E vs \in (IF Random THEN {RandomElement({1, 2, 2})} ELSE {0}) :
              LET a == heap[i]
                  all == IF vs = 0 THEN Slices(a, i) \cup Others(a, i) ELSE IF vs = 1 \/ Slices(a, i) = {} THEN Others(a, i) ELSE Slices(a, i)
              IN \E v \in Pick(all) : Len(v.sh) <= MaxAxes /\ Size(v.sh) <= MaxSize /\ \E k \in Pick(Locks) : heap' = Append(heap, Lock(v, k))
           /\ UNCHANGED graph
Place(x) == graph' = Append(graph, x) /\ UNCHANGED heap
Start == /\ heap # <<>> /\ Len(graph) < MaxMembers
         /\ \/ \E i \in Pick(1..Len(heap)) : Place(<<"array", i>>)
            \/ Lone /\ \E t \in Pick({x[1] : x \in Types}) : \E k \in Pick({"scalar", "dtype"}) : Place(<<k, t>>)
Next == NewOwner \/ NewView \/ Start
ASpec == Init /\ [][Next]_<<heap, graph>>

(* Writing a view and reading it again gives the elements their old places.  *)
(* Every view stays inside the memory of its owner.                          *)
Sound(a) ==
  LET c == Cells(a) n == Size(heap[a.own].sh) * Item(heap[a.own].t) IN
  /\ Len(c) = Size(a.sh)
  /\ \A i \in 1..Len(c) : c[i] >= 0 /\ c[i] + Item(a.t) <= n
  /\ Read(Written(a), Item(a.t)) = c
  /\ a.w => heap[a.own].w
Laws ==
  /\ \A i \in 1..Len(heap) : Sound(heap[i])
  /\ graph # <<>> => PrintT(<<"CASE", ToJson([heap |-> heap, graph |-> graph])>>)
=============================================================================
