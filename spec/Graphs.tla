------------------------------- MODULE Graphs ------------------------------
(* Object graphs, built one member at a time.  Every behaviour fills the     *)
(* open slots in depth-first order with an atom, a new node or a reference   *)
(* to an existing node, so every rooted graph within the bounds is built     *)
(* exactly once up to renaming.  In a complete state the two halves of       *)
(* Codec are applied and the round-trip theorems are checked; complete       *)
(* states are also printed, to be replayed into the implementation.          *)
EXTENDS Codec, Json

CONSTANTS
  Shapes,     \* set of <<kind, #seq, #ext, #items, #attrs>>
  Atoms,      \* set of <<type, token>> for ordinary slots
  HashAtoms,  \* set of <<type, token>> for set members
  KeyAtoms,   \* set of <<type, token>> for dictionary keys
  NodeKeys,   \* kinds of nodes allowed as dictionary keys
  MaxNodes,
  Opts,       \* set of option records
  RefsOn,     \* allow references to existing nodes
  EmitOn      \* print complete graphs

VARIABLES heap, from, todo, root, o
vars == <<heap, from, todo, root, o>>

Hole == Atom("hole", "")
RootSlot == <<0, "root", 0>>

Init == /\ heap = <<>> /\ from = <<>> /\ root = Hole
        /\ todo = <<RootSlot>>
        /\ o \in Opts

Slot == Head(todo)
Owner(s) == s[1]
OwnerKind(s) == IF s[1] = 0 THEN "root" ELSE heap[s[1]].k

RECURSIVE HashCtx(_)
HashCtx(s) == IF s[1] = 0 THEN FALSE
              ELSE IF s[2] = "key" \/ (OwnerKind(s) \in {"set", "setsub", "fset"} /\ s[2] = "seq") THEN TRUE
              ELSE IF OwnerKind(s) \in {"tuple", "ntuple", "tupsub"} THEN HashCtx(from[s[1]])
              ELSE FALSE

HashKinds == {"obj", "tuple", "fset", "enum", "ntuple", "state", "stated", "newargs", "handler"} \cup ReduceKinds
HashRefKinds == HashKinds \ {"tuple", "ntuple"}

(* The text a key is coerced to, any text will do as long as they differ.    *)
KeyText(r) == IF StrKey(r) THEN "~" ELSE "R:" \o ToString(r)

Put(s, r) ==
  IF s[1] = 0 THEN /\ root' = r /\ heap' = heap
  ELSE /\ root' = root
       /\ heap' = [heap EXCEPT ![s[1]] =
            CASE s[2] = "seq"  -> [@ EXCEPT !.seq[s[3]] = r]
              [] s[2] = "ext"  -> [@ EXCEPT !.ext[s[3]] = r]
              [] s[2] = "key"  -> [@ EXCEPT !.items[s[3]] = <<r, @[2], KeyText(r)>>]
              [] s[2] = "val"  -> [@ EXCEPT !.items[s[3]][2] = r]
              [] s[2] = "attr" -> [@ EXCEPT !.attrs[s[3]][2] = r]]

AtomsFor(s) == IF s[2] = "key"
               THEN IF OwnerKind(s) \in {"newargsex", "argstate"} THEN {a \in KeyAtoms : a[1] = "str" /\ a[2] \notin Tags} ELSE KeyAtoms
               ELSE IF HashCtx(s) THEN HashAtoms ELSE Atoms

FreshKey(s, r) == IF s[2] # "key" THEN TRUE ELSE \A x \in 1..(s[3]-1) : heap[s[1]].items[x][1] # r

FillAtom ==
  /\ todo # <<>>
  /\ \E a \in AtomsFor(Slot) :
       /\ FreshKey(Slot, Atom(a[1], a[2]))
       /\ Put(Slot, Atom(a[1], a[2]))
  /\ todo' = Tail(todo)
  /\ UNCHANGED <<from, o>>

AttrNames == <<"a", "b", "c", "d", "e", "f">>
Holes(n) == [x \in 1..n |-> Hole]

LeafSeq(k) == CASE k = "enum1" -> <<Atom("int", "1")>>
                [] k = "enum2" -> <<Atom("int", "2")>>
                [] k = "ddict" -> <<Atom("type", "builtins.list")>>
                [] OTHER -> <<>>
KindName(k) == IF k \in {"enum1", "enum2"} THEN "enum" ELSE IF k = "faillate" THEN "fail" ELSE k
ClassName(k) == IF k = "faillate" THEN "vpk.FailLate" ELSE KindName(k)

NewNode(sh) ==
  Node(KindName(sh[1]), ClassName(sh[1]),
       IF sh[1] \in {"enum1", "enum2", "ddict"} THEN LeafSeq(sh[1]) ELSE Holes(sh[2]), Holes(sh[3]),
       [x \in 1..sh[4] |-> <<Hole, Hole, "~">>],
       [x \in 1..sh[5] |-> <<AttrNames[x], Hole>>])

(* Sections are opened in the order in which they are written.               *)
SlotsOf(i, sh) ==
  LET sq == IF sh[1] \in {"enum1", "enum2", "ddict"} THEN <<>> ELSE [x \in 1..sh[2] |-> <<i, "seq", x>>]
      ex == [x \in 1..sh[3] |-> <<i, "ext", x>>]
      it == [x \in 1..(2*sh[4]) |-> <<i, IF x % 2 = 1 THEN "key" ELSE "val", (x + 1) \div 2>>]
      at == [x \in 1..sh[5] |-> <<i, "attr", x>>]
  IN CASE sh[1] \in {"listsub", "setsub"} -> at \o sq
       [] sh[1] \in ReduceKinds -> sq \o at \o ex \o it
       [] OTHER -> sq \o ex \o it \o at

MayHold(s, k) ==
  /\ IF s[2] = "key" THEN k \in NodeKeys /\ OwnerKind(s) \notin {"newargsex", "argstate"} ELSE TRUE
  /\ IF HashCtx(s) THEN k \in HashKinds ELSE TRUE

FillNew ==
  /\ todo # <<>> /\ Len(heap) < MaxNodes
  /\ \E sh \in Shapes :
       LET i == Len(heap) + 1 IN
       /\ MayHold(Slot, KindName(sh[1]))
       /\ LET s == Slot
              h1 == Append(heap, NewNode(sh)) IN
          /\ IF s[1] = 0 THEN root' = Nd(i) /\ heap' = h1
             ELSE /\ root' = root
                  /\ heap' = [h1 EXCEPT ![s[1]] =
                       CASE s[2] = "seq"  -> [@ EXCEPT !.seq[s[3]] = Nd(i)]
                         [] s[2] = "ext"  -> [@ EXCEPT !.ext[s[3]] = Nd(i)]
                         [] s[2] = "key"  -> [@ EXCEPT !.items[s[3]] = <<Nd(i), @[2], KeyText(Nd(i))>>]
                         [] s[2] = "val"  -> [@ EXCEPT !.items[s[3]][2] = Nd(i)]
                         [] s[2] = "attr" -> [@ EXCEPT !.attrs[s[3]][2] = Nd(i)]]
          /\ from' = Append(from, s)
          /\ todo' = SlotsOf(i, sh) \o Tail(todo)
  /\ UNCHANGED o

(* The section of the ancestor j through which slot s is reached, or "".     *)
RECURSIVE Via(_,_)
Via(j, s) == IF s[1] = 0 THEN "" ELSE IF s[1] = j THEN s[2] ELSE Via(j, from[s[1]])

(* Objects that exist before the members of that section are decoded.        *)
Early(k, sec) ==
  \/ k \in {"list", "dict", "obj", "dictsub", "ddict", "listsub", "setsub", "state", "stated", "iter", "libseq", "libdict", "ns"}
  \/ k \in ReduceKinds /\ sec # "seq"
  \/ k \in {"newargs", "newargsex", "argstate", "initargs"} /\ sec = "attr"
  \/ k = "tupsub" /\ sec = "attr"
(* Places where a placeholder is replaced once the object exists.            *)
Swappable(s) ==
  \/ OwnerKind(s) \in {"list", "listsub", "iter"} /\ s[2] = "seq"
  \/ OwnerKind(s) \in {"dict", "dictsub", "ddict"} /\ s[2] = "val"
  \/ OwnerKind(s) \in {"obj", "dictsub", "listsub", "tupsub", "stated", "newargs", "argstate"} /\ s[2] = "attr"

(* A tuple or set met again inside itself is written out again, down to the  *)
(* first member with an identity, which then has to exist already.           *)
RECURSIVE FirstId(_,_,_)
FirstId(j, s, acc) == IF s[1] = j THEN acc
                      ELSE FirstId(j, from[s[1]], IF HasIdentity(heap[s[1]].k) THEN <<s[1], s[2]>> ELSE acc)
Reenter(j, s) == LET f == FirstId(j, s, <<0, "">>) IN
                 IF f[1] = 0 THEN FALSE ELSE Early(heap[f[1]].k, f[2])

(* What has to exist before node i can be made.  No program can make a graph *)
(* with a cycle in this relation.                                            *)
NeedSeq(i) == LET n == heap[i] IN
  (IF Early(n.k, "seq") THEN <<>> ELSE n.seq) \o (IF Early(n.k, "ext") THEN <<>> ELSE n.ext)
  \o (IF Early(n.k, "val") THEN <<>> ELSE [x \in 1..Len(n.items) |-> n.items[x][2]])
  \o (IF Early(n.k, "attr") THEN <<>> ELSE [x \in 1..Len(n.attrs) |-> n.attrs[x][2]])
Needs(i) == LET s == NeedSeq(i) IN {s[x][2] : x \in {y \in 1..Len(s) : IsNode(s[y])}}
RECURSIVE NeedsAll(_,_)
NeedsAll(new, seen) == IF new = {} THEN seen
                       ELSE LET more == (UNION {Needs(i) : i \in new}) \ seen IN NeedsAll(more, seen \cup more)
Makeable(s, j) == IF s[1] = 0 THEN TRUE
                  ELSE IF Early(heap[s[1]].k, s[2]) THEN TRUE ELSE s[1] \notin NeedsAll({j}, {j})

FillRef ==
  /\ RefsOn /\ todo # <<>>
  /\ \E j \in 1..Len(heap) :
       LET via == Via(j, Slot) k == heap[j].k IN
       /\ MayHold(Slot, k)
       /\ IF HashCtx(Slot) THEN k \in HashRefKinds ELSE TRUE
       /\ FreshKey(Slot, Nd(j))
       /\ Makeable(Slot, j)
       /\ IF via = "" THEN TRUE ELSE IF Early(k, via) THEN TRUE
             ELSE IF HasIdentity(k) THEN Swappable(Slot) ELSE Reenter(j, Slot)
       /\ ~(via # "" /\ HashCtx(Slot) /\ ~Early(k, via))
       /\ Put(Slot, Nd(j))
  /\ todo' = Tail(todo)
  /\ UNCHANGED <<from, o>>

Next == FillAtom \/ FillNew \/ FillRef
Spec == Init /\ [][Next]_vars

Complete == todo = <<>>

-----------------------------------------------------------------------------
RECURSIVE JsonKeysIn(_)
(* All tags used as keys anywhere in a document.                             *)
JsonKeysIn(j) ==
  IF IsLit(j) THEN {}
  ELSE IF IsArr(j) THEN UNION {JsonKeysIn(j[2][x]) : x \in 1..Len(j[2])}
  ELSE UNION {JsonKeysIn(j[2][x][2]) \cup (IF j[2][x][1][1] = "s" THEN {j[2][x][1][2]}
                                           ELSE JsonKeysIn(j[2][x][1][2])) : x \in 1..Len(j[2])}

HasPx(h) == \E i \in 1..Len(h) : LET ks == Kids(h[i]) IN \E x \in 1..Len(ks) : IsPx(ks[x])
OnCycle(i) == i \in ReachR(heap, KidNodes(heap, i), KidNodes(heap, i))
(* Objects that reach themselves through their own constructor arguments     *)
(* cannot be rebuilt.  FillRef leaves them out as long as members are        *)
(* written in the order in which they were filled.  That is not so with      *)
(* keys=True (ordinary keys first), with objects as keys (they are not       *)
(* written by default), when a tuple or set lies on a cycle (it is written   *)
(* out again inside itself) and when members of a failing object or of an    *)
(* iterator are not written where they were filled; then the result decides. *)
NodeKey == \E i \in 1..Len(heap) : \E x \in 1..Len(heap[i].items) : IsNode(heap[i].items[x][1])
Skipping == o.iter >= 0 \/ \E i \in 1..Len(heap) : heap[i].k = "fail"
OutOfOrder == o.keys \/ NodeKey \/ Skipping \/ \E i \in 1..Len(heap) : heap[i].k \in ValueKinds /\ OnCycle(i)
Supported(back) == IF HasPx(back.h) THEN ~OutOfOrder ELSE TRUE

(* Kinds whose plain view is not part of the model.                          *)
NoPlain == {"fset", "enum", "newargs", "newargsex", "argstate", "initargs", "libseq", "slice"} \cup ReduceKinds
PlainTags == {"py/object", "py/id", "py/tuple", "py/set", "py/state", "py/reduce", "py/seq"}

Law(name, holds) == IF holds THEN TRUE
                    ELSE PrintT(<<"BROKEN", ToJson([law |-> name, heap |-> heap, root |-> root, o |-> o])>>) /\ FALSE

(* What is claimed about every complete graph.                               *)
Laws ==
  Complete =>
    LET out == Fl(heap, root, o, 0, St0)
        doc == out.j
        back == Restore(doc, o, ClassTable(heap))
        view == Now(IF o.keys THEN View(heap, o) ELSE Coerced(View(heap, o)))
        free == o.depth = -1 /\ ~out.st.clash
    IN
    /\ Law("RoundTrip", (o.unp /\ o.refs /\ free /\ Supported(back)) => Iso(view, ViewRef(heap, o, root), back.h, back.r))
    \* the numberings of both sides agree
    /\ Law("Numbering", (o.unp /\ o.refs /\ free) => Len(out.st.log) = Len(back.objs))
    /\ Law("NoRefs", (o.unp /\ ~o.refs /\ free) =>
             /\ "py/id" \notin JsonKeysIn(doc)
             /\ Acyclic(heap, root) => SameTree(view, ViewRef(heap, o, root), back.h, back.r))
    /\ Law("Plain", (~o.unp /\ \A i \in 1..Len(heap) : heap[i].k \notin NoPlain) => JsonKeysIn(doc) \cap PlainTags = {})
    /\ (EmitOn /\ Supported(back) /\ ~out.st.clash) =>
          PrintT(<<"CASE", ToJson([heap |-> heap, root |-> root, o |-> o])>>)
=============================================================================
