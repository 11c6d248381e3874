-------------------------------- MODULE Docs --------------------------------
(* Documents on their own, whether or not an encoder would write them.       *)
(*                                                                           *)
(* A document grows from a hole: the first hole is filled with a piece, and  *)
(* pieces may have holes themselves.  A hole <<"hole", c>> says what may go  *)
(* there: "v" any value, "h" one that can be hashed, "m" only a literal, "i" *)
(* only a reference.                                                         *)
(* Reading a document is RestoreIn of Codec; here are the documents and what *)
(* has to hold for their meanings.                                           *)
EXTENDS Codec, Json

CONSTANTS
  Seeds,     \* documents to start from
  Groups,    \* sequence of sets of pieces [for |-> contexts, j |-> piece]
  MaxInner,  \* number of pieces with holes
  Opts,
  Names,     \* what the pieces can name: [ct, sup, gone] as in Codec
  Random

Hole(c) == <<"hole", c>>
V == Hole("v")
H == Hole("h")
M == Hole("m")
I == Hole("i")

RECURSIVE Holes(_), HolesSeq(_)
HolesSeq(s) == IF s = <<>> THEN <<>> ELSE Holes(s[1]) \o HolesSeq(Tail(s))
KeyJ(k) == IF k[1] = "s" THEN NullJ ELSE k[2]
Holes(j) ==
  CASE j[1] = "hole" -> <<j[2]>>
    [] j[1] = "lit" -> <<>>
    [] j[1] = "arr" -> HolesSeq(j[2])
    [] OTHER -> HolesSeq(Now([i \in 1..(2 * Len(j[2])) |->
                           LET e == j[2][(i + 1) \div 2] IN IF i % 2 = 1 THEN KeyJ(e[1]) ELSE e[2]]))
Full(j) == Holes(j) = <<>>

(* The first hole filled with p.                                             *)
RECURSIVE Plug(_,_)
Plug(j, p) ==
  CASE j[1] = "hole" -> p
    [] j[1] = "arr" ->
         LET i == CHOOSE i \in 1..Len(j[2]) : ~Full(j[2][i]) /\ \A k \in 1..(i-1) : Full(j[2][k])
         IN Arr([j[2] EXCEPT ![i] = Plug(@, p)])
    [] j[1] = "obj" ->
         LET full(e) == Full(KeyJ(e[1])) /\ Full(e[2])
             i == CHOOSE i \in 1..Len(j[2]) : ~full(j[2][i]) /\ \A k \in 1..(i-1) : full(j[2][k])
             e == j[2][i]
         IN Obj([j[2] EXCEPT ![i] = IF Full(KeyJ(e[1])) THEN <<e[1], Plug(e[2], p)>>
                                     ELSE <<JKey(Plug(e[1][2], p)), e[2]>>])
    [] OTHER -> j

-----------------------------------------------------------------------------
(* Pieces.                                                                   *)
Free(j) == [for |-> {"v"}, j |-> j]
Hashed(j) == [for |-> {"v", "h"}, j |-> j]
Everywhere(j) == [for |-> {"v", "h", "m"}, j |-> j]

Literals == {Everywhere(j) : j \in {NullJ, Lit("pool", "any"), Lit("pool", "any"), Lit("pool", "str"), Lit("pool", "num")}}
Ids(n) == {[for |-> {"v", "i"}, j |-> IdJ(i)] : i \in 0..(n - 1)} \cup {[for |-> {"v", "h", "i"}, j |-> IdJ(900)]}

(* JSON arrays and objects; keys that come close to those of the format.     *)
OddKeys == {"k", "", "py/", "py", "py/objects", "py/Object", " py/object", "json://1", "__dict__", "default_factory"}
PlainPieces ==
  {Free(j) : j \in {Arr(<<>>), Arr(<<V>>), Arr(<<V, V>>), Arr(<<V, V, V>>), Obj(<<>>), Obj(<<KV("k", V), KV("l", V)>>),
                   Obj(<<KV("b", V), KV("a", V), KV("c", V)>>)}
                  \cup {Obj(<<KV(k, V)>>) : k \in OddKeys}}
RECURSIVE Tower(_,_)
Tower(n, t) == IF n = 0 THEN V
               ELSE CASE t = 1 -> Arr(<<Tower(n - 1, t)>>)
                      [] t = 2 -> Obj(<<KV("k", Tower(n - 1, t))>>)
                      [] OTHER -> Arr(<<NullJ, Obj(<<KV("a", NullJ), KV("b", Tower(n - 1, t))>>)>>)
(* the tags as values                                                        *)
TagTexts == {Everywhere(StrJ(t)) : t \in {"py/object", "py/id", "py/tuple", "json://[]", "py/newobj"}}

(* All kinds of values of the format.  Entries may come in any order.        *)
ObjJ(c, es) == Obj(<<KV("py/object", StrJ(c))>> \o es)
TypeJ(c) == Tagged("py/type", StrJ(c))
TupleJ(s) == Tagged("py/tuple", Arr(s))
BasicPieces ==
  {Free(j) : j \in {Arr(<<V>>), Arr(<<V, V>>), Arr(<<V, V, V>>), Obj(<<KV("k", V), KV("l", V)>>), Obj(<<KV("k", V)>>),
                   Tagged("py/set", Arr(<<H>>)), Tagged("py/set", Arr(<<StrJ("first"), H>>)),
                   Tagged("py/iterator", Arr(<<V, V>>)), Tagged("py/iterator", Arr(<<V>>)),
                   TupleJ(<<V, V>>), TupleJ(<<V>>)}}
  \cup {Hashed(TupleJ(<<H, H>>)), Hashed(TupleJ(<<H>>))}
EscapedPieces == {Free(Obj(<<<<JKey(H), V>>>>)), Free(Obj(<<KV("plain", V), <<JKey(H), V>>>>)),
                  Free(Obj(<<<<JKey(H), V>>, KV("plain", V)>>))}
ObjectPieces ==
  {Free(j) : j \in {ObjJ("vpk.Plain", <<KV("a", V), KV("b", V)>>), ObjJ("vpk.Plain", <<KV("a", V)>>), ObjJ("vpk.Plain", <<>>),
                   Obj(<<KV("a", V), KV("py/object", StrJ("vpk.Plain")), KV("b", V)>>),
                   ObjJ("vpk.Slotted", <<KV("a", V)>>),
                   ObjJ("vpk.DSub", <<KV("k", V), KV("l", V)>>), ObjJ("vpk.DSub", <<KV("k", V), KV("__dict__", Obj(<<KV("a", V)>>))>>),
                   ObjJ("vpk.LSub", <<KV("a", V), KV("py/seq", Arr(<<V, V>>))>>),
                   Obj(<<KV("py/seq", Arr(<<V>>)), KV("py/object", StrJ("vpk.LSub")), KV("a", V)>>),
                   ObjJ("vpk.SSub", <<KV("py/seq", Arr(<<H>>))>>), ObjJ("vpk.SSub", <<KV("a", V), KV("py/seq", Arr(<<StrJ("first"), H>>))>>)}}
CtorPieces ==
  {Free(j) : j \in {ObjJ("vpk.NewArgs", <<KV("py/newargs", TupleJ(<<V>>)), KV("a", V)>>),
                   ObjJ("vpk.NewArgsEx", <<KV("py/newargsex", Arr(<<TupleJ(<<V>>), Obj(<<>>)>>)), KV("a", V)>>),
                   ObjJ("vpk.State", <<KV("py/state", TupleJ(<<StrJ("st"), V>>))>>),
                   ObjJ("vpk.StateDict", <<KV("py/state", Obj(<<KV("a", V)>>))>>),
                   ObjJ("vpk.Handled", <<KV("v", V)>>),
                   Tagged("py/reduce", Arr(<<TypeJ("vpk.Reduce"), TupleJ(<<V>>)>>)),
                   Tagged("py/reduce", Arr(<<TypeJ("vpk.Reduce"), TupleJ(<<V>>), Obj(<<KV("a", V)>>)>>)),
                   Tagged("py/reduce", Arr(<<TypeJ("vpk.Reduce"), TupleJ(<<>>), NullJ, TupleJ(<<V, V>>)>>))}}
(* Something, and a reference that comes after it.                           *)
ThenId == {Arr(<<V, Arr(<<>>), I>>), Arr(<<V, I>>), TupleJ(<<V, Arr(<<>>), I>>), Obj(<<KV("k", V), KV("l", I)>>),
           ObjJ("vpk.Plain", <<KV("a", V), KV("b", I)>>), Arr(<<Obj(<<<<JKey(H), NullJ>>>>), I>>), Arr(<<Tagged("py/set", Arr(<<H>>)), I>>),
           ObjJ("vpk.LSub", <<KV("a", V), KV("py/seq", Arr(<<I>>))>>), Tagged("py/iterator", Arr(<<V, I>>)),
           ObjJ("vpk.DSub", <<KV("k", V), KV("l", I)>>)}

BytesPieces == {Hashed(Tagged(t, Lit("bytes", x))) : t \in {"py/b64", "py/b85"}, x \in {"", "00ff", "616263"}}
               \cup {Free(Tagged("py/bytea", Tagged("py/b64", Lit("bytes", "61")))), Hashed(TypeJ("vpk.Plain"))}

(* Tags with payloads they cannot have.                                      *)
Three == IntJ(3)
TrueJ == Lit("bool", "True")
SomeObj == Obj(<<KV("a", Arr(<<Three>>))>>)
Scalars == {NullJ, TrueJ, Three, IntJ(0), Lit("float", "1.5")}
NotLists == Scalars \cup {StrJ("ab"), StrJ(""), Obj(<<>>), SomeObj, IdJ(0), Obj(<<KV("py/object", StrJ("vpk.Plain"))>>)}
NotTexts == Scalars \cup {Arr(<<>>), Arr(<<StrJ("YQ==")>>), Obj(<<>>), SomeObj, IdJ(0)}
NotBytes == Scalars \cup {StrJ("ab"), StrJ("py/b85"), Arr(<<>>), Arr(<<StrJ("py/b64")>>), Arr(<<StrJ("py/b85")>>), Obj(<<>>), SomeObj,
                          Tagged("py/b64", Three), Tagged("py/b85", NullJ), Tagged("py/b85", Arr(<<>>))}
NotIds == {NullJ, TrueJ, Lit("bool", "False"), IntJ(-1), IntJ(-2), Lit("float", "0.0"), Lit("float", "1.0"), StrJ("0"), StrJ(""),
           Arr(<<>>), Arr(<<IntJ(0)>>), Obj(<<>>), SomeObj}
NotReductions == NotLists \cup {Arr(<<>>), Arr(<<Three>>), Arr(<<NullJ, TupleJ(<<>>)>>), Arr(<<StrJ("x"), TupleJ(<<>>), Three>>)}
Alone(tag, ps) == {Tagged(tag, p) : p \in ps}
Beside(tag, ps) == {Obj(<<KV("x", Arr(<<>>)), KV(tag, p), KV("y", Obj(<<>>))>>) : p \in ps}
Malformed ==
  {Hashed(j) : j \in Alone("py/tuple", NotLists) \cup Alone("py/b64", NotTexts) \cup Alone("py/b85", NotTexts)
                     \cup Alone("py/id", NotIds) \cup Alone("py/iterator", NotLists) \cup Beside("py/tuple", NotLists) \cup Beside("py/id", NotIds)}
  \cup {Free(j) : j \in Alone("py/set", NotLists) \cup Alone("py/bytea", NotBytes) \cup Alone("py/reduce", NotReductions)
                       \cup Beside("py/set", NotLists) \cup Beside("py/iterator", NotLists) \cup Beside("py/reduce", NotReductions)
                       \cup Beside("py/bytea", NotBytes) \cup Beside("py/b64", NotTexts)}

(* Texts that say what to look up.  Which text stands for a name is chosen   *)
(* when a case is run; none of those used here leads to anything but "good". *)
Spelled(n) == Lit("text", n)
Telling(t) ==
  {Hashed(Tagged("py/function", t)), Free(Tagged("py/type", t)), Free(Obj(<<KV("py/object", t), KV("a", M)>>)),
   Free(Tagged("py/reduce", Arr(<<Tagged("py/function", t), TupleJ(<<V>>)>>))),
   Free(Tagged("py/reduce", Arr(<<Tagged("py/type", t), TupleJ(<<V>>)>>))),
   Free(Obj(<<KV("py/object", StrJ("collections.defaultdict")), KV("default_factory", Tagged("py/function", t)), KV("k", V)>>)),
   Free(ObjJ("vpk.Plain", <<KV("a", Tagged("py/function", t)), KV("b", V)>>))}
TellingPieces == Telling(Spelled("dotted"))
                 \cup {Hashed(Tagged(g, Spelled("slashed"))) : g \in {"py/repr", "py/mod"}}
                 \cup {Hashed(Tagged("py/repr", Spelled("good"))), Hashed(Tagged("py/function", Spelled("goodfn")))}
                 \cup {Everywhere(Spelled("dotted")), Free(Obj(<<KV("py/property", Spelled("dotted"))>>)),
                       Free(Obj(<<KV("py/ref", Spelled("slashed"))>>)), Free(Obj(<<KV("py/bytes", Spelled("dotted"))>>))}

(* Classes by name.                                                          *)
ClassNames == {"vpk.Plain", "vpk.Falsy", "vplocal.Local", "vplocal.Outer.Inner", "gone.Thing", "other.Thing", "Thing", "gone.Outer.Inner"}
ClassPieces ==
  UNION {{Free(ObjJ(c, <<KV("a", M)>>)), Free(ObjJ(c, <<>>)), Free(Obj(<<KV("a", M), KV("py/object", StrJ(c)), KV("b", M)>>)), Free(TypeJ(c))} : c \in ClassNames}
ClassHolders == {Free(ObjJ(c, <<KV("a", V), KV("b", V)>>)) : c \in {"vpk.Plain", "vpk.Falsy"}}

-----------------------------------------------------------------------------
(* The classes argument: a class, a collection of arguments, or a mapping of *)
(* names or classes to classes.  Own(c) is the name a class has itself.      *)
OwnName == [Local |-> "vplocal.Local", Shadow |-> "vpk.Plain", Nested |-> "vplocal.Outer.Inner", Other |-> "vpk.Falsy"]
ClassIds == DOMAIN OwnName
One == {<<"cls", c>> : c \in ClassIds}
Maps == {<<"map", <<<<k, c>>>>>> : k \in {<<"name", "vpk.Plain">>, <<"name", "Plain">>, <<"name", "gone.Thing">>, <<"name", "Thing">>,
                                          <<"name", "Inner">>, <<"name", "other.Thing">>, <<"class", "vpk.Plain">>},
                                   c \in {"Local", "Other", "Nested"}}
        \cup {<<"map", <<<<<<"name", "Thing">>, "Local">>, <<<<"name", "gone.Thing">>, "Other">>>>>>,
              <<"map", <<<<<<"name", "Plain">>, "Nested">>, <<<<"class", "vpk.Plain">>, "Local">>>>>>}
Forms == {<<"none">>} \cup One \cup Maps
         \cup {<<"seq", k, <<a, b>>>> : k \in {"list", "tuple"}, a \in One, b \in One \cup {<<"seq", "set", <<<<"cls", "Nested">>>>>>}}
         \cup {<<"seq", "list", <<a, m>>>> : a \in One, m \in Maps}
         \cup {<<"seq", "list", <<m, a>>>> : a \in One, m \in Maps}
RECURSIVE Entries(_), EntriesSeq(_)
EntriesSeq(s) == IF s = <<>> THEN <<>> ELSE Entries(s[1]) \o EntriesSeq(Tail(s))
Entries(f) ==
  CASE f[1] = "none" -> <<>>
    [] f[1] = "cls" -> <<<<OwnName[f[2]], "sup." \o f[2]>>>>
    [] f[1] = "seq" -> EntriesSeq(f[3])
    [] OTHER -> [i \in 1..Len(f[2]) |-> <<f[2][i][1][2], "sup." \o f[2][i][2]>>]

-----------------------------------------------------------------------------
VARIABLES doc, inner, form, opts
vars == <<doc, inner, form, opts>>

DInit == doc \in Seeds /\ inner = 0 /\ form \in Names.forms /\ opts \in Opts

Escapes(j) == IsObj(j) /\ \E i \in 1..Len(j[2]) : j[2][i][1][1] = "j"
Fits(p, c) == c \in p.for /\ (inner < MaxInner \/ Full(p.j)) /\ (opts.keys \/ ~Escapes(p.j))
Allowed(s, c) == {p \in s : Fits(p, c)}
All(c) == UNION {Allowed(Groups[g], c) : g \in 1..Len(Groups)}
Some(c) == LET g == RandomElement({g \in 1..Len(Groups) : Allowed(Groups[g], c) # {}}) IN RandomElement(Allowed(Groups[g], c))
DNext ==
  LET hs == Holes(doc) IN
  /\ hs # <<>>
  /\ \E p \in (IF Random THEN {Some(hs[1])} ELSE All(hs[1])) :
        /\ doc' = Plug(doc, p.j)
        /\ inner' = IF Full(p.j) THEN inner ELSE inner + 1
  /\ UNCHANGED <<form, opts>>
DSpec == DInit /\ [][DNext]_vars

-----------------------------------------------------------------------------
(* What has to hold of meanings.                                             *)
HasPx(h) == \E i \in 1..Len(h) : LET ks == Kids(h[i]) IN \E y \in 1..Len(ks) : IsPx(ks[y])
RECURSIVE KeysIn(_)
KeysIn(j) ==
  IF IsLit(j) THEN {}
  ELSE IF IsArr(j) THEN UNION {KeysIn(j[2][x]) : x \in 1..Len(j[2])}
  ELSE UNION {KeysIn(j[2][x][2]) \cup (IF j[2][x][1][1] = "s" THEN {j[2][x][1][2]} ELSE KeysIn(j[2][x][1][2])) : x \in 1..Len(j[2])}

(* A plain tree as the JSON value it is read from.                           *)
RECURSIVE Back(_,_)
Back(h, r) ==
  IF IsAtom(r) THEN Lit(r[2], r[3])
  ELSE LET n == h[r[2]] IN
       IF n.k = "list" THEN Arr(Now([i \in 1..Len(n.seq) |-> Back(h, n.seq[i])]))
       ELSE Obj(Now([i \in 1..Len(n.items) |-> <<SKey(n.items[i][1][3]), Back(h, n.items[i][2])>>]))
RECURSIVE Containers(_), ContainersSeq(_)
ContainersSeq(s) == IF s = <<>> THEN 0 ELSE Containers(s[1]) + ContainersSeq(Tail(s))
Containers(j) == IF IsLit(j) THEN 0
                 ELSE IF IsArr(j) THEN 1 + ContainersSeq(j[2])
                 ELSE 1 + ContainersSeq([i \in 1..Len(j[2]) |-> j[2][i][2]])
(* h, r is exactly the tree j: same order, no sharing.                       *)
IsTree(h, r, j) == /\ \A i \in 1..Len(h) : h[i].k \in {"list", "dict"}
                   /\ Len(h) = Containers(j)
                   /\ Back(h, r) = j

(* The document in which malformed parts are replaced by the neutral values  *)
(* of their tags; n is the number of objects.                                *)
Neutral(tag) ==
  CASE tag = "py/tuple" -> TupleJ(<<>>)
    [] tag = "py/set" -> Tagged("py/set", Arr(<<>>))
    [] tag \in {"py/b64", "py/b85"} -> Tagged(tag, Lit("bytes", ""))
    [] tag = "py/bytea" -> Tagged(tag, Tagged("py/b64", Lit("bytes", "")))
    [] tag = "py/id" -> NullJ
    [] tag = "py/iterator" -> Tagged("py/iterator", Arr(<<>>))
    [] OTHER -> Arr(<<>>)
Ranked == <<"py/tuple", "py/set", "py/b64", "py/b85", "py/bytea", "py/id", "py/iterator", "py/reduce">>
WellTyped(tag, p, n) ==
  CASE tag \in {"py/tuple", "py/set", "py/iterator"} -> IsArr(p)
    [] tag \in {"py/b64", "py/b85"} -> IsLit(p) /\ p[2] = "bytes"
    [] tag = "py/bytea" -> IsObj(p) /\ \E t \in {"py/b64", "py/b85"} : HasKey(p, t) /\ BytesIn(GetKey(p, t)) # ""
    [] tag = "py/id" -> IsNumber(p) /\ StrToNat(p[3]) < n
    [] OTHER -> IsArr(p) /\ Len(p[2]) >= 2 /\ Callable(p[2][1], Env0)
RECURSIVE Repair(_,_)
Repair(j, n) ==
  IF IsLit(j) THEN j
  ELSE IF IsArr(j) THEN Arr(Now([i \in 1..Len(j[2]) |-> Repair(j[2][i], n)]))
  ELSE LET ts == {i \in 1..Len(Ranked) : HasKey(j, Ranked[i])}
           t == Ranked[CHOOSE i \in ts : \A k \in ts : i <= k]
       IN IF ts # {} /\ ~WellTyped(t, GetKey(j, t), n) THEN Neutral(t)
          ELSE Obj(Now([i \in 1..Len(j[2]) |->
                  LET k == j[2][i][1] IN <<IF k[1] = "s" THEN k ELSE JKey(Repair(k[2], n)), Repair(j[2][i][2], n)>>]))

EnvFor(f) == [Env0 EXCEPT !.ct = Names.ct, !.gone = Names.gone, !.sup = Entries(f)]
CtorTags == {"py/newargs", "py/newargsex", "py/reduce", "py/state", "v"}

Laws ==
  Full(doc) =>
    LET m == RestoreIn(doc, opts, EnvFor(form))
        fixed == Repair(doc, Len(m.objs))
        m2 == RestoreIn(fixed, opts, EnvFor(form))
        keys == KeysIn(doc)
        ok == /\ keys \cap CtorTags = {} => ~HasPx(m.h) /\ ~IsPx(m.r)
              /\ Names.law /\ ~HasPx(m.h) => Iso(m.h, m.r, m2.h, m2.r) /\ Len(m.objs) = Len(m2.objs)
              /\ keys \cap Tags = {} /\ ~opts.keys => IsTree(m.h, m.r, doc)
              /\ opts.safe => m.fired = 0
    IN IF ok THEN PrintT(<<"CASE", ToJson([j |-> doc, form |-> form, o |-> opts])>>)
       ELSE PrintT(<<"BROKEN", ToJson([j |-> doc, form |-> form, o |-> opts, fixed |-> fixed])>>) /\ FALSE
=============================================================================
