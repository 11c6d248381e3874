------------------------------ MODULE PyGraph ------------------------------
(* Python object graphs as heaps of tagged nodes, and the JSON values        *)
(* jsonpickle exchanges.                                                     *)
(*                                                                           *)
(* A reference is an atom  <<"a", type, token>>  (a primitive value, bytes,  *)
(* a class, a function), a node  <<"n", i>>  (i indexes the heap) or, only   *)
(* while decoding, a placeholder  <<"p", k>>  for the object with number k.  *)
(*                                                                           *)
(* A node has a kind k, a class name c, the text token r of its repr, and    *)
(* five sections: seq (elements, constructor arguments), ext (appended       *)
(* items of a reduced object), items (dictionary entries <<key, value,       *)
(* repr token of key>>), attrs (<<name, value>>).  Sections a kind does not  *)
(* use are empty.                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Atom(cls, tok) == <<"a", cls, tok>>
Nd(i) == <<"n", i>>
Px(k) == <<"p", k>>
IsAtom(r) == r[1] = "a"
IsNode(r) == r[1] = "n"
IsPx(r)   == r[1] = "p"
NoneR == Atom("NoneType", "None")

Node(k, c, seq, ext, items, attrs) ==
  [k |-> k, c |-> c, r |-> "~", seq |-> seq, ext |-> ext, items |-> items, attrs |-> attrs]

(* Kinds without identity of their own: they are values, rebuilt wherever    *)
(* they occur.  All other kinds are numbered and keep their identity.        *)
ValueKinds == {"tuple", "set"}
HasIdentity(k) == k \notin ValueKinds
UnorderedKinds == {"set", "setsub", "fset"}

(* Makes TLC compute the members of a sequence once, instead of every time   *)
(* one of them is used.                                                      *)
Now(s) == s \o <<>>
InSeq(s, x) == \E i \in 1..Len(s) : s[i] = x
PosOf(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x /\ \A k \in 1..(i-1) : s[k] # x

-----------------------------------------------------------------------------
(* Sameness of two graphs: same shape, same kinds, classes and atoms, and    *)
(* the same sharing of all nodes that have an identity.  IsoR returns        *)
(* <<verdict, correspondence>>; the correspondence is a pair of sequences    *)
(* giving the partner of every node of the one and of the other graph (0 if  *)
(* it has none yet).  Members of unordered collections are matched greedily; *)
(* that is exact as long as no two members of one collection look alike.     *)

RECURSIVE Shallow(_,_,_,_,_)
(* Used to match members of unordered collections: equality that ignores     *)
(* identity, followed to a limited depth.                                    *)
Shallow(h1, r1, h2, r2, d) ==
  IF IsAtom(r1) \/ IsAtom(r2) THEN r1 = r2
  ELSE IF IsPx(r1) \/ IsPx(r2) THEN FALSE
  ELSE IF d = 0 THEN TRUE
  ELSE LET a == h1[r1[2]]  b == h2[r2[2]] IN
       /\ a.k = b.k /\ a.c = b.c
       /\ Len(a.seq) = Len(b.seq) /\ Len(a.ext) = Len(b.ext)
       /\ Len(a.items) = Len(b.items) /\ Len(a.attrs) = Len(b.attrs)
       /\ IF a.k \in UnorderedKinds
          THEN \A i \in 1..Len(a.seq) : \E j \in 1..Len(b.seq) :
                  Shallow(h1, a.seq[i], h2, b.seq[j], d - 1)
          ELSE \A i \in 1..Len(a.seq) : Shallow(h1, a.seq[i], h2, b.seq[i], d - 1)
       /\ \A i \in 1..Len(a.ext) : Shallow(h1, a.ext[i], h2, b.ext[i], d - 1)
       /\ \A i \in 1..Len(a.attrs) : \E j \in 1..Len(b.attrs) :
             a.attrs[i][1] = b.attrs[j][1] /\ Shallow(h1, a.attrs[i][2], h2, b.attrs[j][2], d - 1)

RECURSIVE IsoR(_,_,_,_,_), IsoSeq(_,_,_,_,_,_), IsoUnord(_,_,_,_,_), IsoItems(_,_,_,_,_), IsoAttrs(_,_,_,_,_)

IsoSeq(h1, s1, h2, s2, i, m) ==
  IF Len(s1) # Len(s2) THEN <<FALSE, m>>
  ELSE IF i > Len(s1) THEN <<TRUE, m>>
  ELSE LET x == IsoR(h1, s1[i], h2, s2[i], m) IN
       IF x[1] THEN IsoSeq(h1, s1, h2, s2, i + 1, x[2]) ELSE x

Drop(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))

RECURSIVE IsoPick(_,_,_,_,_,_)
IsoPick(h1, s1, h2, s2, j, m) ==
  IF j > Len(s2) THEN <<FALSE, m>>
  ELSE IF ~Shallow(h1, s1[1], h2, s2[j], 2) THEN IsoPick(h1, s1, h2, s2, j + 1, m)
  ELSE LET x == IsoR(h1, s1[1], h2, s2[j], m) IN
       IF x[1] THEN IsoUnord(h1, Tail(s1), h2, Drop(s2, j), x[2])
       ELSE IsoPick(h1, s1, h2, s2, j + 1, m)

IsoUnord(h1, s1, h2, s2, m) ==
  IF Len(s1) # Len(s2) THEN <<FALSE, m>>
  ELSE IF s1 = <<>> THEN <<TRUE, m>>
  ELSE IsoPick(h1, s1, h2, s2, 1, m)

RECURSIVE IsoEntry(_,_,_,_,_,_)
IsoEntry(h1, s1, h2, s2, j, m) ==
  IF j > Len(s2) THEN <<FALSE, m>>
  ELSE IF ~Shallow(h1, s1[1][1], h2, s2[j][1], 2) THEN IsoEntry(h1, s1, h2, s2, j + 1, m)
  ELSE LET kx == IsoR(h1, s1[1][1], h2, s2[j][1], m) IN
       IF ~kx[1] THEN IsoEntry(h1, s1, h2, s2, j + 1, m)
       ELSE LET vx == IsoR(h1, s1[1][2], h2, s2[j][2], kx[2])
            IN IF vx[1] THEN IsoItems(h1, Tail(s1), h2, Drop(s2, j), vx[2]) ELSE vx

IsoItems(h1, s1, h2, s2, m) ==
  IF Len(s1) # Len(s2) THEN <<FALSE, m>>
  ELSE IF s1 = <<>> THEN <<TRUE, m>>
  ELSE IsoEntry(h1, s1, h2, s2, 1, m)

IsoAttrs(h1, s1, h2, s2, m) ==
  IF Len(s1) # Len(s2) THEN <<FALSE, m>>
  ELSE IF s1 = <<>> THEN <<TRUE, m>>
  ELSE LET cand == {j \in 1..Len(s2) : s2[j][1] = s1[1][1]} IN
       IF cand = {} THEN <<FALSE, m>>
       ELSE LET j == CHOOSE j \in cand : TRUE
                x == IsoR(h1, s1[1][2], h2, s2[j][2], m)
            IN IF x[1] THEN IsoAttrs(h1, Tail(s1), h2, Drop(s2, j), x[2]) ELSE x

IsoR(h1, r1, h2, r2, m) ==
  IF IsAtom(r1) \/ IsAtom(r2) THEN <<r1 = r2, m>>
  ELSE IF IsPx(r1) \/ IsPx(r2) THEN <<FALSE, m>>
  ELSE LET i == r1[2]  j == r2[2]
           a == h1[i]  b == h2[j] IN
    IF a.k # b.k \/ a.c # b.c THEN <<FALSE, m>>
    ELSE IF HasIdentity(a.k) /\ (m[1][i] # 0 \/ m[2][j] # 0)
         THEN <<m[1][i] = j /\ m[2][j] = i, m>>
    ELSE LET m0 == IF HasIdentity(a.k) THEN <<[m[1] EXCEPT ![i] = j], [m[2] EXCEPT ![j] = i]>> ELSE m
             x1 == IF a.k \in UnorderedKinds
                   THEN IsoUnord(h1, a.seq, h2, b.seq, m0)
                   ELSE IsoSeq(h1, a.seq, h2, b.seq, 1, m0)
             x2 == IF x1[1] THEN IsoSeq(h1, a.ext, h2, b.ext, 1, x1[2]) ELSE x1
             x3 == IF x2[1] THEN IsoItems(h1, a.items, h2, b.items, x2[2]) ELSE x2
         IN IF x3[1] THEN IsoAttrs(h1, a.attrs, h2, b.attrs, x3[2]) ELSE x3

NoPairs(h1, h2) == <<[i \in 1..Len(h1) |-> 0], [i \in 1..Len(h2) |-> 0]>>
Iso(h1, r1, h2, r2) == IsoR(h1, r1, h2, r2, NoPairs(h1, h2))[1]

(* Equality of content that ignores sharing (used when references are off).  *)
(* Only for graphs without cycles.                                           *)
RECURSIVE SameTree(_,_,_,_)
SameTree(h1, r1, h2, r2) ==
  IF IsAtom(r1) \/ IsAtom(r2) THEN r1 = r2
  ELSE IF IsPx(r1) \/ IsPx(r2) THEN FALSE
  ELSE LET a == h1[r1[2]]  b == h2[r2[2]] IN
       /\ a.k = b.k /\ a.c = b.c
       /\ Len(a.seq) = Len(b.seq) /\ Len(a.ext) = Len(b.ext)
       /\ Len(a.items) = Len(b.items) /\ Len(a.attrs) = Len(b.attrs)
       /\ IF a.k \in UnorderedKinds
          THEN \A i \in 1..Len(a.seq) : \E j \in 1..Len(b.seq) : SameTree(h1, a.seq[i], h2, b.seq[j])
          ELSE \A i \in 1..Len(a.seq) : SameTree(h1, a.seq[i], h2, b.seq[i])
       /\ \A i \in 1..Len(a.ext) : SameTree(h1, a.ext[i], h2, b.ext[i])
       /\ \A i \in 1..Len(a.items) : \E j \in 1..Len(b.items) :
             SameTree(h1, a.items[i][1], h2, b.items[j][1]) /\ SameTree(h1, a.items[i][2], h2, b.items[j][2])
       /\ \A i \in 1..Len(a.attrs) : \E j \in 1..Len(b.attrs) :
             a.attrs[i][1] = b.attrs[j][1] /\ SameTree(h1, a.attrs[i][2], h2, b.attrs[j][2])

Kids(n) == [i \in 1..Len(n.seq) |-> n.seq[i]] \o [i \in 1..Len(n.ext) |-> n.ext[i]]
           \o [i \in 1..Len(n.items) |-> n.items[i][1]] \o [i \in 1..Len(n.items) |-> n.items[i][2]]
           \o [i \in 1..Len(n.attrs) |-> n.attrs[i][2]]

KidNodes(h, i) == LET ks == Kids(h[i]) IN {ks[x][2] : x \in {y \in 1..Len(ks) : IsNode(ks[y])}}

RECURSIVE ReachR(_,_,_)
ReachR(h, front, seen) ==
  IF front = {} THEN seen
  ELSE LET next == (UNION {KidNodes(h, i) : i \in front}) \ seen
       IN ReachR(h, next, seen \cup next)
Reach(h, r) == IF IsNode(r) THEN ReachR(h, {r[2]}, {r[2]}) ELSE {}
Acyclic(h, r) == \A i \in Reach(h, r) : i \notin ReachR(h, KidNodes(h, i), KidNodes(h, i))

-----------------------------------------------------------------------------
(* JSON values: <<"lit", type, token>>, <<"arr", seq>>, <<"obj", entries>>,  *)
(* an entry being <<key, value>> with key <<"s", text>> (a plain key) or     *)
(* <<"j", json>> (a key escaped with the json:// prefix).                    *)
Lit(cls, tok) == <<"lit", cls, tok>>
StrJ(s) == Lit("str", s)
NullJ == Lit("NoneType", "None")
IntJ(n) == Lit("int", ToString(n))
Arr(s) == <<"arr", s>>
Obj(s) == <<"obj", s>>
SKey(s) == <<"s", s>>
JKey(j) == <<"j", j>>
KV(name, j) == <<SKey(name), j>>
Tagged(tag, j) == Obj(<<KV(tag, j)>>)
IdJ(n) == Tagged("py/id", IntJ(n))
IsLit(j) == j[1] = "lit"
IsArr(j) == j[1] = "arr"
IsObj(j) == j[1] = "obj"
HasKey(j, name) == \E i \in 1..Len(j[2]) : j[2][i][1] = SKey(name)
GetKey(j, name) == LET i == CHOOSE i \in 1..Len(j[2]) : j[2][i][1] = SKey(name) IN j[2][i][2]

(* Insertion into a JSON object: an existing key keeps its place.            *)
PutKV(s, k, j) ==
  IF \E i \in 1..Len(s) : s[i][1] = k
  THEN [i \in 1..Len(s) |-> IF s[i][1] = k THEN <<k, j>> ELSE s[i]]
  ELSE Append(s, <<k, j>>)

(* Recorded documents are tables in which members are named by position.     *)
RECURSIVE UnpackAt(_,_)
UnpackAt(t, i) ==
  LET e == t[i] IN
  IF e[1] = "lit" THEN e
  ELSE IF e[1] = "arr" THEN Arr(Now([x \in 1..Len(e[2]) |-> UnpackAt(t, e[2][x])]))
  ELSE Obj(Now([x \in 1..Len(e[2]) |->
                  LET k == e[2][x][1] IN
                  <<IF k[1] = "s" THEN k ELSE JKey(UnpackAt(t, k[2])), UnpackAt(t, e[2][x][2])>>]))
Unpack(t) == UnpackAt(t, Len(t))

RECURSIVE JEq(_,_)
(* Equal as JSON values: the order of object entries does not matter.        *)
JEq(a, b) ==
  IF a[1] # b[1] THEN FALSE
  ELSE IF a[1] = "lit" THEN a = b
  ELSE IF Len(a[2]) # Len(b[2]) THEN FALSE
  ELSE IF a[1] = "arr" THEN \A i \in 1..Len(a[2]) : JEq(a[2][i], b[2][i])
  ELSE \A i \in 1..Len(a[2]) :
         LET same(k) == IF a[2][i][1][1] # k[1] THEN FALSE
                        ELSE IF k[1] = "s" THEN a[2][i][1] = k ELSE JEq(a[2][i][1][2], k[2])
         IN IF i <= Len(b[2]) /\ same(b[2][i][1]) THEN JEq(a[2][i][2], b[2][i][2])
            ELSE \E j \in 1..Len(b[2]) : same(b[2][j][1]) /\ JEq(a[2][i][2], b[2][j][2])

Tags == {"py/bytes", "py/bytea", "py/b64", "py/b85", "py/function", "py/id", "py/initargs",
         "py/iterator", "py/mod", "py/newargs", "py/newargsex", "py/newobj", "py/object",
         "py/property", "py/reduce", "py/default_factory", "py/ref", "py/repr", "py/seq",
         "py/set", "py/state", "py/tuple", "py/type"}
EscapedLooking(t) == Len(t) >= 7 /\ SubSeq(t, 1, 7) = "json://"
(* "pool" stands for a primitive value that is chosen when a case is run.    *)
Prims == {"NoneType", "bool", "int", "float", "str", "pool", "named"}
=============================================================================
