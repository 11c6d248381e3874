------------------------------- MODULE Codec -------------------------------
(* The two halves of the library as functions on heaps and documents:        *)
(* Flatten writes a graph as a document, Restore reads one back.  Both       *)
(* carry the reference table explicitly, because agreement of the two        *)
(* numberings is what round trips depend on.                                 *)
(*                                                                           *)
(* Options o: unp (unpicklable), refs (make_refs), keys, depth (-1: none),   *)
(* b85, iter (max_iter, -1: none).                                           *)
EXTENDS PyGraph

R(j, st) == [j |-> j, st |-> st]

(* Encoder state: log = objects in order of their numbers (0 stands for an   *)
(* object that is not part of the heap, like an instance dictionary), cache  *)
(* = results by node (only used when references or tags are off), clash =    *)
(* two keys of one dictionary were written with the same text, fails = the   *)
(* objects that raised and were replaced by fail_safe.                       *)
St0 == [log |-> <<>>, cache |-> <<>>, clash |-> FALSE, fails |-> <<>>]
Clash(st, acc, k) == IF \E x \in 1..Len(acc) : acc[x][1] = k THEN [st EXCEPT !.clash = TRUE] ELSE st
Logged(st, i) == InSeq(st.log, i)
Log(st, i) == IF i # 0 /\ Logged(st, i) THEN st ELSE [st EXCEPT !.log = Append(@, i)]
Cached(st, i) == \E x \in 1..Len(st.cache) : st.cache[x][1] = i
CacheGet(st, i) == LET x == CHOOSE x \in 1..Len(st.cache) :
                              st.cache[x][1] = i /\ \A y \in (x+1)..Len(st.cache) : st.cache[y][1] # i
                   IN st.cache[x][2]
UseCache(o) == ~(o.unp /\ o.refs)

BytesJ(o, tok) == Tagged(IF o.b85 THEN "py/b85" ELSE "py/b64", Lit("bytes", tok))

FlAtom(r, o, d) ==
  LET cls == r[2] tok == r[3] IN
  CASE cls \in Prims -> Lit(cls, tok)
    [] cls = "bytes" -> BytesJ(o, tok)
    [] cls = "bytearray" -> Tagged("py/bytea", BytesJ(o, tok))
    [] cls = "type" -> IF d = o.depth THEN StrJ("R:" \o tok) ELSE Tagged("py/type", StrJ(tok))
    [] cls = "func" -> IF d = o.depth THEN StrJ("R:" \o tok)
                       ELSE IF o.unp THEN Tagged("py/function", StrJ(tok)) ELSE NullJ
    [] cls = "lambda" -> IF d = o.depth THEN StrJ("R:" \o tok) ELSE NullJ
    [] OTHER -> NullJ

IsLambda(r) == IsAtom(r) /\ r[2] = "lambda"

StrKey(r) == IsAtom(r) /\ r[2] = "str"
(* String keys that would be mistaken for part of the format.                *)
Colliding(r) == StrKey(r) /\ (r[3] \in Tags \/ EscapedLooking(r[3]))

RECURSIVE Fl(_,_,_,_,_), FlSeq(_,_,_,_,_), FlAttrs(_,_,_,_,_,_), FlItems(_,_,_,_,_,_),
          FlPlain(_,_,_,_,_,_), FlEscaped(_,_,_,_,_,_), FlNode(_,_,_,_,_), FlInst(_,_,_,_,_), FlPairs(_,_,_,_,_)

(* d is the nesting level of the value being written; the root has level 0.  *)
Fl(h, r, o, d, st) ==
  IF IsAtom(r) THEN R(FlAtom(r, o, d), st)
  ELSE LET i == r[2] IN
    IF UseCache(o) /\ Cached(st, i) THEN R(CacheGet(st, i), st)
    ELSE LET x == FlNode(h, i, o, d, st) IN
         IF UseCache(o) THEN R(x.j, [x.st EXCEPT !.cache = Append(@, <<i, x.j>>)]) ELSE x

FlSeq(h, s, o, d, st) ==
  IF s = <<>> THEN R(<<>>, st)
  ELSE LET x == Fl(h, s[1], o, d, st)
           y == FlSeq(h, Tail(s), o, d, x.st)
       IN R(<<x.j>> \o y.j, y.st)

FlAttrs(h, s, o, d, st, acc) ==
  IF s = <<>> THEN R(acc, st)
  ELSE IF IsLambda(s[1][2]) \/ s[1][1] \in Tags THEN FlAttrs(h, Tail(s), o, d, st, acc)
  ELSE LET x == Fl(h, s[1][2], o, d, st)
       IN FlAttrs(h, Tail(s), o, d, x.st, PutKV(acc, SKey(s[1][1]), x.j))

(* keys=True, first pass: ordinary string keys; second pass: all others.     *)
FlPlain(h, s, o, d, st, acc) ==
  IF s = <<>> THEN R(acc, st)
  ELSE IF StrKey(s[1][1]) /\ ~Colliding(s[1][1]) /\ ~IsLambda(s[1][2])
       THEN LET x == Fl(h, s[1][2], o, d, st)
            IN FlPlain(h, Tail(s), o, d, x.st, PutKV(acc, SKey(s[1][1][3]), x.j))
       ELSE FlPlain(h, Tail(s), o, d, st, acc)

FlEscaped(h, s, o, d, st, acc) ==
  IF s = <<>> THEN R(acc, st)
  ELSE IF Colliding(s[1][1]) \/ (~StrKey(s[1][1]) /\ ~IsLambda(s[1][2]))
       THEN LET k == Fl(h, s[1][1], o, d, st)
                x == Fl(h, s[1][2], o, d, k.st)
            IN FlEscaped(h, Tail(s), o, d, Clash(x.st, acc, JKey(k.j)), PutKV(acc, JKey(k.j), x.j))
       ELSE FlEscaped(h, Tail(s), o, d, st, acc)

CoercedKey(item) ==
  IF StrKey(item[1]) THEN item[1][3]
  ELSE IF item[1] = NoneR THEN "null" ELSE item[3]

FlItems(h, s, o, d, st, acc) ==
  IF o.keys
  THEN LET p == FlPlain(h, s, o, d, st, acc) IN FlEscaped(h, s, o, d, p.st, p.j)
  ELSE IF s = <<>> THEN R(acc, st)
  ELSE IF IsLambda(s[1][2]) \/ (StrKey(s[1][1]) /\ s[1][1][3] \in Tags)
       THEN FlItems(h, Tail(s), o, d, st, acc)
  ELSE LET x == Fl(h, s[1][2], o, d, st)
           key == SKey(CoercedKey(s[1]))
       IN FlItems(h, Tail(s), o, d, Clash(x.st, acc, key), PutKV(acc, key, x.j))

(* dictionary items of a reduced object: a tuple of pairs                    *)
FlPairs(h, s, o, d, st) ==
  IF s = <<>> THEN R(<<>>, st)
  ELSE LET k == Fl(h, s[1][1], o, d, st)
           v == Fl(h, s[1][2], o, d, k.st)
           y == FlPairs(h, Tail(s), o, d, v.st)
       IN R(<<Tagged("py/tuple", Arr(<<k.j, v.j>>))>> \o y.j, y.st)

(* The items drawn from an iterator.                                         *)
Taken(s, o) == IF o.iter = -1 \/ o.iter >= Len(s) THEN s ELSE SubSeq(s, 1, o.iter)

ReduceKinds == {"reduce", "reducefn", "reducesix", "reducenew"}
(* Functions of the test classes that stand in for a class in a reduction.   *)
FactoryOf(c) == IF c = "vpk.ReduceFn" THEN "vpk.make_reduced" ELSE "make." \o c
MadeBy(f) == IF f = "vpk.make_reduced" THEN "vpk.ReduceFn"
             ELSE IF Len(f) > 5 THEN SubSeq(f, 6, Len(f)) ELSE f

TrimNulls(s) ==
  LET keep == {i \in 3..Len(s) : s[i] # NullJ}
      n == IF keep = {} THEN 2 ELSE CHOOSE i \in keep : \A k \in keep : k <= i
  IN SubSeq(s, 1, n)

FlNode(h, i, o, d, st) ==
  LET n == h[i]
      inlog == Logged(st, i)
  IN
  IF n.k = "fail"   \* raises, some after their member has been written
  THEN IF inlog THEN R(IdJ(PosOf(st.log, i) - 1), st)
       ELSE LET y == IF n.c = "vpk.FailLate" THEN Fl(h, n.seq[1], o, d + 1, Log(st, i)).st ELSE st
            IN R(FlAtom(o.fs, o, d), [st EXCEPT !.fails = Append(y.fails, i)])
  ELSE IF (d = o.depth \/ (~o.refs /\ inlog)) /\ n.k # "enum" THEN R(StrJ(n.r), st)
  ELSE IF n.k \in ValueKinds
  THEN LET x == FlSeq(h, n.seq, o, d + 1, st) IN
       R(IF ~o.unp THEN Arr(x.j)
         ELSE Tagged(IF n.k = "tuple" THEN "py/tuple" ELSE "py/set", Arr(x.j)), x.st)
  ELSE IF n.k \in {"list", "dict"}
  THEN IF ~o.unp /\ inlog THEN R(NullJ, st)
       ELSE IF o.unp /\ o.refs /\ inlog THEN R(IdJ(PosOf(st.log, i) - 1), st)
       ELSE LET st1 == Log(st, i) IN
            IF n.k = "list"
            THEN LET x == FlSeq(h, n.seq, o, d + 1, st1) IN R(Arr(x.j), x.st)
            ELSE LET x == FlItems(h, n.items, o, d + 1, st1, <<>>) IN R(Obj(x.j), x.st)
  ELSE IF ~o.unp /\ inlog THEN R(NullJ, st)
  ELSE IF o.unp /\ o.refs /\ inlog THEN R(IdJ(PosOf(st.log, i) - 1), st)
  ELSE LET x == FlInst(h, i, o, d + 1, Log(st, i)) IN
       IF o.unp /\ IsLit(x.j) THEN R(x.j, [x.st EXCEPT !.log = SubSeq(@, 1, Len(st.log))]) ELSE x

(* Instances.  d is the level of the members.                                *)
FlInst(h, i, o, d, st) ==
  LET n == h[i]
      head == IF o.unp THEN <<KV("py/object", StrJ(n.c))>> ELSE <<>>
      typ == Tagged("py/type", StrJ(n.c))
  IN
  CASE n.k = "obj" ->
         LET x == FlAttrs(h, n.attrs, o, d, st, head) IN R(Obj(x.j), x.st)
    [] n.k = "dictsub" ->
         LET x == FlItems(h, n.items, o, d, st, head) IN
         IF o.unp /\ (n.items # <<>> \/ n.attrs # <<>>)
         THEN LET y == FlAttrs(h, n.attrs, o, d, Log(x.st, 0), <<>>)
              IN R(Obj(PutKV(x.j, SKey("__dict__"), Obj(y.j))), y.st)
         ELSE R(Obj(x.j), x.st)
    [] n.k = "ddict" ->
         LET x == FlItems(h, n.items, o, d, st, head)
             fac == Tagged("py/type", StrJ(n.seq[1][3]))
             name == IF \E e \in 1..Len(x.j) : x.j[e][1] = SKey("default_factory")
                     THEN "py/default_factory" ELSE "default_factory"
         IN R(Obj(PutKV(x.j, SKey(name), fac)), x.st)
    [] n.k \in {"listsub", "setsub"} ->
         LET x == FlAttrs(h, n.attrs, o, d, st, head)
             y == FlSeq(h, n.seq, o, d, x.st)
         IN IF o.unp THEN R(Obj(PutKV(x.j, SKey("py/seq"), Arr(y.j))), y.st) ELSE R(Arr(y.j), y.st)
    [] n.k \in {"ntuple", "tupsub"} ->
         LET \* the new-arguments tuple is one level down, and for a tuple
             \* subclass it wraps the elements in one more tuple
             a == FlSeq(h, n.seq, o, IF n.k = "ntuple" THEN d + 1 ELSE d + 2, st)
             x == FlAttrs(h, n.attrs, o, d, a.st, <<>>)
             y == FlSeq(h, n.seq, o, d, x.st)
             args == Tagged("py/tuple", Arr(IF n.k = "ntuple" THEN a.j
                                            ELSE <<Tagged("py/tuple", Arr(a.j))>>))
         IN IF o.unp THEN R(Obj(head \o <<KV("py/newargs", args)>> \o x.j \o <<KV("py/seq", Arr(y.j))>>), y.st)
            ELSE R(Arr(y.j), y.st)
    [] n.k = "state" ->   \* __getstate__ returns the tuple ("st", value)
         LET x == Fl(h, n.seq[1], o, d + 1, st)
             s == IF o.unp THEN Tagged("py/tuple", Arr(<<StrJ("st"), x.j>>))
                  ELSE Arr(<<StrJ("st"), x.j>>)
         IN IF o.unp THEN R(Obj(head \o <<KV("py/state", s)>>), x.st) ELSE R(s, x.st)
    [] n.k = "stated" ->  \* __getstate__ returns a new dictionary of the attributes
         LET x == FlAttrs(h, n.attrs, o, d + 1, Log(st, 0), <<>>)
         IN IF o.unp THEN R(Obj(head \o <<KV("py/state", Obj(x.j))>>), x.st) ELSE R(Obj(x.j), x.st)
    [] n.k \in ReduceKinds ->
         LET a == FlSeq(h, n.seq, o, d + 1, st)
             fn == CASE n.k = "reducefn" -> Tagged("py/function", StrJ(FactoryOf(n.c)))
                     [] n.k = "reducenew" -> StrJ("py/newobj")
                     [] OTHER -> typ
             as == IF n.k = "reducenew" THEN <<typ>> \o a.j ELSE a.j
             six == IF n.k = "reducesix" THEN Tagged("py/function", StrJ("vpk.set_state")) ELSE NullJ
             s == IF n.attrs = <<>> THEN R(NullJ, a.st)
                  ELSE LET y == FlAttrs(h, n.attrs, o, d + 1, Log(a.st, 0), <<>>) IN R(Obj(y.j), y.st)
             l == IF n.ext = <<>> THEN R(NullJ, s.st)
                  ELSE LET y == FlSeq(h, n.ext, o, d + 1, s.st) IN R(Tagged("py/tuple", Arr(y.j)), y.st)
             m == IF n.items = <<>> THEN R(NullJ, l.st)
                  ELSE LET y == FlPairs(h, n.items, o, d + 2, l.st) IN R(Tagged("py/tuple", Arr(y.j)), y.st)
         IN R(Tagged("py/reduce", Arr(TrimNulls(<<fn, Tagged("py/tuple", Arr(as)), s.j, l.j, m.j, six>>))), m.st)
    [] n.k = "fset" ->    \* frozenset: constructor called with one new list
         LET a == FlSeq(h, n.seq, o, d + 2, Log(st, 0))
         IN R(Tagged("py/reduce", Arr(<<typ, Tagged("py/tuple", Arr(<<Arr(a.j)>>))>>)), a.st)
    [] n.k = "enum" ->
         LET a == FlSeq(h, n.seq, o, d + 1, st)
         IN R(Tagged("py/reduce", Arr(<<typ, Tagged("py/tuple", Arr(a.j))>>)), a.st)
    [] n.k = "newargs" ->
         LET a == FlSeq(h, n.seq, o, d + 1, st)
             x == FlAttrs(h, n.attrs, o, d, a.st, head \o <<KV("py/newargs", Tagged("py/tuple", Arr(a.j)))>>)
         IN R(Obj(x.j), x.st)
    [] n.k = "newargsex" ->  \* positional arguments in seq, keyword arguments in items
         LET a == FlSeq(h, n.seq, o, d + 1, st)
             w == FlItems(h, n.items, o, d + 1, Log(a.st, 0), <<>>)
             x == FlAttrs(h, n.attrs, o, d, w.st,
                          head \o <<KV("py/newargsex", Arr(<<Tagged("py/tuple", Arr(a.j)), Obj(w.j)>>))>>)
         IN R(Obj(x.j), x.st)
    [] n.k = "argstate" ->  \* new arguments and a state
         LET a == FlSeq(h, n.seq, o, d + 1, st)
             w == FlItems(h, n.items, o, d + 1, Log(a.st, 0), <<>>)
             x == FlAttrs(h, n.attrs, o, d + 1, Log(w.st, 0), <<>>)
             new == <<KV("py/newargsex", Arr(<<Tagged("py/tuple", Arr(a.j)), Obj(w.j)>>))>>
         IN IF o.unp THEN R(Obj(head \o new \o <<KV("py/state", Obj(x.j))>>), x.st) ELSE R(Obj(x.j), x.st)
    [] n.k = "initargs" ->
         LET a == FlSeq(h, n.seq, o, d + 1, st)
             x == FlAttrs(h, n.attrs, o, d, a.st, head \o <<KV("py/initargs", Tagged("py/tuple", Arr(a.j)))>>)
         IN R(Obj(x.j), x.st)
    [] n.k = "handler" ->    \* a registered handler that flattens one member
         LET x == Fl(h, n.seq[1], o, d, st) IN R(Obj(head \o <<KV("v", x.j)>>), x.st)
    [] n.k = "iter" ->       \* an iterator, written as its next items
         LET a == FlSeq(h, Taken(n.seq, o), o, d, st)
         IN R(Obj(head \o <<KV("py/iterator", Arr(a.j))>>), a.st)
    \* values of library types: how they are written is not part of the
    \* model, only which members they have and in which order
    [] n.k = "lib" -> R(Obj(head), st)
    [] n.k = "libseq" -> LET a == FlSeq(h, n.seq, o, d, st) IN R(Obj(head \o <<KV("py/seq", Arr(a.j))>>), a.st)
    [] n.k = "ns" -> LET x == FlAttrs(h, n.attrs, o, d, st, head) IN R(Obj(x.j), x.st)
    [] n.k = "libdict" -> LET a == FlItems(h, n.items, o, d, st, head) IN R(Obj(a.j), a.st)
    [] n.k = "slice" -> LET a == FlSeq(h, n.seq, o, d, st) IN R(Obj(head \o <<KV("py/newargs", Arr(a.j))>>), a.st)
    [] n.k = "hplain" -> R(StrJ("plain"), st)
    [] n.k \in {"null", "hnone"} -> R(NullJ, st)
    [] n.k = "module" -> R(IF o.unp THEN Tagged("py/mod", StrJ(n.c \o "/" \o n.c)) ELSE StrJ(n.r), st)
    [] OTHER -> R(NullJ, st)

Flatten(h, r, o) == Fl(h, r, o, 0, St0).j

-----------------------------------------------------------------------------
(* Decoder state: h = the heap built so far, objs = the numbered objects, ct *)
(* = the classes that can be loaded, as a sequence of <<name, kind>>, sup =  *)
(* the classes the caller supplies, as a sequence of <<name, class>>, gone = *)
(* names that are known to lead to nothing, miss = the names of classes that *)
(* were looked for in vain, fired = how many texts were evaluated.           *)
Env0 == [h |-> <<>>, objs |-> <<>>, ct |-> <<>>, sup |-> <<>>, gone |-> <<>>, miss |-> <<>>, fired |-> 0]
Q(r, st) == [r |-> r, st |-> st]
New(st, n) == LET h2 == Append(st.h, n) IN Q(Nd(Len(h2)), [st EXCEPT !.h = h2])
Number(st, r) == [st EXCEPT !.objs = Append(@, r)]
Fill(st, r, n) == [st EXCEPT !.h[r[2]] = n]
Resolve(st, k, r) == [st EXCEPT !.objs[k] = r]
KindOf(st, c) == LET x == {i \in 1..Len(st.ct) : st.ct[i][1] = c}
                 IN IF x = {} THEN "missing" ELSE st.ct[CHOOSE i \in x : TRUE][2]

(* A name leads to the class that was supplied under it, or under its last   *)
(* part, and only then to what can be imported.                              *)
RECURSIVE After(_,_,_)
After(t, ch, i) == IF i = 0 THEN t ELSE IF SubSeq(t, i, i) = ch THEN SubSeq(t, i + 1, Len(t)) ELSE After(t, ch, i - 1)
LastPart(t) == After(t, ".", Len(t))
Supplied(sup, c) == {i \in 1..Len(sup) : sup[i][1] = c}
Latest(s) == CHOOSE i \in s : \A k \in s : k <= i
Load(st, c) ==
  IF st.sup = <<>> THEN c
  ELSE LET a == Supplied(st.sup, c)
           b == Supplied(st.sup, LastPart(c))
       IN IF a # {} THEN st.sup[Latest(a)][2] ELSE IF b # {} THEN st.sup[Latest(b)][2] ELSE c
IsGone(st, c) == Load(st, c) = c /\ InSeq(st.gone, c)

EmptyNode(k, c) == Node(k, c, <<>>, <<>>, <<>>, <<>>)

RECURSIVE Rs(_,_,_), RsNow(_,_,_), RsSeq(_,_,_), RsSeqNow(_,_,_), RsEntries(_,_,_,_), RsAttrs(_,_,_,_,_), RsPhase(_,_,_,_,_), RsObject(_,_,_), RsReduce(_,_,_)

RsSeq(s, o, st) ==
  IF s = <<>> THEN Q(<<>>, st)
  ELSE LET x == Rs(s[1], o, st)
           y == RsSeq(Tail(s), o, x.st)
       IN Q(<<x.r>> \o y.r, y.st)

(* In places that cannot be changed later a reference to an object that is   *)
(* not there (yet) is nothing.                                               *)
RsNow(j, o, st) ==
  LET x == Rs(j, o, st)
  IN IF IsPx(x.r) /\ x.r[2] > Len(x.st.objs) THEN Q(NoneR, x.st) ELSE x
RsSeqNow(s, o, st) ==
  IF s = <<>> THEN Q(<<>>, st)
  ELSE LET x == RsNow(s[1], o, st)
           y == RsSeqNow(Tail(s), o, x.st)
       IN Q(<<x.r>> \o y.r, y.st)

(* A decoded key: plain text, or the value of an escaped key.                *)
RsKey(k, o, st) == IF k[1] = "s" THEN Q(Atom("str", k[2]), st) ELSE RsNow(k[2], o, st)

PutItem(items, k, v) ==
  IF \E i \in 1..Len(items) : items[i][1] = k
  THEN [i \in 1..Len(items) |-> IF items[i][1] = k THEN <<k, v, "~">> ELSE items[i]]
  ELSE Append(items, <<k, v, "~">>)

RsEntries(es, o, st, acc) ==
  IF es = <<>> THEN Q(acc, st)
  ELSE LET k == RsKey(es[1][1], o, st)
           v == Rs(es[1][2], o, k.st)
       IN RsEntries(Tail(es), o, v.st, PutItem(acc, k.r, v.r))

(* Entries of a plain dictionary: with keys=True ordinary keys come first.   *)
RsPhase(es, o, st, acc, esc) ==
  IF es = <<>> THEN Q(acc, st)
  ELSE IF (es[1][1][1] = "j") # esc THEN RsPhase(Tail(es), o, st, acc, esc)
  ELSE LET x == RsEntries(<<es[1]>>, o, st, acc) IN RsPhase(Tail(es), o, x.st, x.r, esc)

RsDict(es, o, st) ==
  IF o.keys THEN LET p == RsPhase(es, o, st, <<>>, FALSE) IN RsPhase(es, o, p.st, p.r, TRUE)
  ELSE RsEntries(es, o, st, <<>>)

(* Members of an instance, in document order, skipping tags: <<attrs, items>>*)
RsAttrs(es, o, st, acc, k) ==
  IF es = <<>> THEN Q(acc, st)
  ELSE IF es[1][1][1] = "s" /\ es[1][1][2] \in Tags THEN RsAttrs(Tail(es), o, st, acc, k)
  ELSE IF k \in {"dictsub", "ddict", "libdict"}
  THEN IF es[1][1] = SKey("__dict__")
       THEN LET v == Rs(es[1][2], o, st)
                items == v.st.h[v.r[2]].items
            IN RsAttrs(Tail(es), o, v.st,
                       <<[i \in 1..Len(items) |-> <<items[i][1][3], items[i][2]>>], acc[2]>>, k)
       ELSE LET x == RsEntries(<<es[1]>>, o, st, acc[2]) IN RsAttrs(Tail(es), o, x.st, <<acc[1], x.r>>, k)
  ELSE LET v == Rs(es[1][2], o, st)
       IN RsAttrs(Tail(es), o, v.st, <<Append(acc[1], <<es[1][1][2], v.r>>), acc[2]>>, k)

SeqOfTuple(st, r) == IF IsNode(r) THEN st.h[r[2]].seq ELSE <<>>
AttrsOfDict(st, r) == IF IsNode(r)
                      THEN LET it == st.h[r[2]].items IN [i \in 1..Len(it) |-> <<it[i][1][3], it[i][2]>>]
                      ELSE <<>>
ItemsOfPairs(st, r) == IF IsNode(r)
                       THEN LET s == st.h[r[2]].seq
                            IN [i \in 1..Len(s) |-> <<st.h[s[i][2]].seq[1], st.h[s[i][2]].seq[2], "~">>]
                       ELSE <<>>

(* A reduction is carried out when it starts with a class or function.       *)
Callable(j, st) ==
  IF IsLit(j) THEN j = StrJ("py/newobj")
  ELSE IF IsArr(j) THEN FALSE
  ELSE IF HasKey(j, "py/function") THEN ~IsGone(st, GetKey(j, "py/function")[3])
  ELSE IF HasKey(j, "py/type") THEN ~IsGone(st, GetKey(j, "py/type")[3]) ELSE FALSE

RsReduce(j, o, st) ==
  LET p == GetKey(j, "py/reduce")
      el == IF IsArr(p) THEN p[2] ELSE <<>>
      pos == Len(st.objs) + 1
      st1 == Number(st, Px(pos))
  IN
  IF el = <<>> \/ ~Callable(el[1], st)
  THEN LET f == RsSeq(SubSeq(el, 1, IF Len(el) > 2 THEN 2 ELSE Len(el)), o, st1)
           e == New(f.st, EmptyNode("list", "list"))
       IN Q(e.r, Resolve(e.st, pos, e.r))
  ELSE
  LET a == Rs(el[2], o, st1)
      all == SeqOfTuple(a.st, a.r)
      newobj == IsLit(el[1])
      cls == IF newobj THEN all[1][3]
             ELSE IF HasKey(el[1], "py/function") THEN MadeBy(GetKey(el[1], "py/function")[3])
             ELSE GetKey(el[1], "py/type")[3]
      k == KindOf(st, cls)
      args == IF newobj THEN Tail(all) ELSE all
      seq == IF k = "fset" THEN a.st.h[args[1][2]].seq ELSE args
      n == New(a.st, Node(k, cls, seq, <<>>, <<>>, <<>>))
      st2 == Resolve(n.st, pos, n.r)
      s == IF Len(el) >= 3 THEN Rs(el[3], o, st2) ELSE Q(NoneR, st2)
      l == IF Len(el) >= 4 THEN Rs(el[4], o, s.st) ELSE Q(NoneR, s.st)
      m == IF Len(el) >= 5 THEN Rs(el[5], o, l.st) ELSE Q(NoneR, l.st)
      f == m.st
  IN Q(n.r, Fill(f, n.r, Node(k, cls, seq, SeqOfTuple(f, l.r), ItemsOfPairs(f, m.r), AttrsOfDict(f, s.r))))

(* A part of the document as it is, with no meaning given to it.             *)
RECURSIVE Raw(_,_), RawSeq(_,_)
RawSeq(s, st) ==
  IF s = <<>> THEN Q(<<>>, st)
  ELSE LET x == Raw(s[1], st)
           y == RawSeq(Tail(s), x.st)
       IN Q(<<x.r>> \o y.r, y.st)
Raw(j, st) ==
  IF IsLit(j) THEN Q(Atom(j[2], j[3]), st)
  ELSE IF IsArr(j) THEN LET x == RawSeq(j[2], st) IN New(x.st, Node("list", "list", x.r, <<>>, <<>>, <<>>))
  ELSE LET x == RawSeq([i \in 1..Len(j[2]) |-> j[2][i][2]], st)
       IN New(x.st, Node("dict", "dict", <<>>, <<>>, [i \in 1..Len(j[2]) |-> <<Atom("str", j[2][i][1][2]), x.r[i], "~">>], <<>>))

RsObject(j, o, st) ==
  LET cls == Load(st, GetKey(j, "py/object")[3])
      k == KindOf(st, cls)
      pos == Len(st.objs) + 1
      st1 == Number(st, Px(pos))
  IN
  CASE k = "missing" ->
         \* strict: the members still have the numbers they had when they
         \* were written, which the library does not take into account (see
         \* KNOWN_FINDINGS.txt)
         LET x == Raw(j, [st1 EXCEPT !.miss = Append(@, cls)])
             held == SelectSeq(j[2], LAMBDA e : ~IsLit(e[2]))
             st2 == Resolve(x.st, pos, x.r)
         IN Q(x.r, IF "strict" \in DOMAIN o THEN [st2 EXCEPT !.objs = @ \o [i \in 1..Len(held) |-> NoneR]] ELSE st2)
    [] k = "handler" ->
         LET v == Rs(GetKey(j, "v"), o, st1)
             n == New(v.st, Node(k, cls, <<v.r>>, <<>>, <<>>, <<>>))
         IN Q(n.r, Resolve(n.st, pos, n.r))
    [] k = "slice" ->
         LET a == RsSeq(GetKey(j, "py/newargs")[2], o, st1)
             n == New(a.st, Node(k, cls, a.r, <<>>, <<>>, <<>>))
         IN Q(n.r, Resolve(n.st, pos, n.r))
    [] k \in {"ntuple", "tupsub"} ->
         LET a == Rs(GetKey(j, "py/newargs"), o, st1)
             args == SeqOfTuple(a.st, a.r)
             seq == IF k = "ntuple" THEN args ELSE SeqOfTuple(a.st, args[1])
             n == New(a.st, Node(k, cls, seq, <<>>, <<>>, <<>>))
             x == RsAttrs(j[2], o, Resolve(n.st, pos, n.r), <<<<>>, <<>>>>, k)
         IN Q(n.r, Fill(x.st, n.r, Node(k, cls, seq, <<>>, <<>>, x.r[1])))
    [] k \in {"newargs", "initargs"} ->
         LET a == Rs(GetKey(j, "py/" \o k), o, st1)
             seq == SeqOfTuple(a.st, a.r)
             n == New(a.st, EmptyNode(k, cls))
             x == RsAttrs(j[2], o, Resolve(n.st, pos, n.r), <<<<>>, <<>>>>, k)
         IN Q(n.r, Fill(x.st, n.r, Node(k, cls, seq, <<>>, <<>>, x.r[1])))
    [] k = "newargsex" ->
         LET ex == GetKey(j, "py/newargsex")[2]
             a == Rs(ex[1], o, st1)
             w == Rs(ex[2], o, a.st)
             n == New(w.st, EmptyNode(k, cls))
             x == RsAttrs(j[2], o, Resolve(n.st, pos, n.r), <<<<>>, <<>>>>, k)
             items == w.st.h[w.r[2]].items
         IN Q(n.r, Fill(x.st, n.r, Node(k, cls, SeqOfTuple(a.st, a.r), <<>>, items, x.r[1])))
    [] k = "argstate" ->
         LET ex == GetKey(j, "py/newargsex")[2]
             a == Rs(ex[1], o, st1)
             w == Rs(ex[2], o, a.st)
             n == New(w.st, EmptyNode(k, cls))
             s == Rs(GetKey(j, "py/state"), o, Resolve(n.st, pos, n.r))
             items == w.st.h[w.r[2]].items
         IN Q(n.r, Fill(s.st, n.r, Node(k, cls, SeqOfTuple(a.st, a.r), <<>>, items, AttrsOfDict(s.st, s.r))))
    [] k = "state" ->
         LET n == New(st1, EmptyNode(k, cls))
             s == Rs(GetKey(j, "py/state"), o, Resolve(n.st, pos, n.r))
         IN Q(n.r, Fill(s.st, n.r, Node(k, cls, <<SeqOfTuple(s.st, s.r)[2]>>, <<>>, <<>>, <<>>)))
    [] k = "stated" ->
         LET n == New(st1, EmptyNode(k, cls))
             s == Rs(GetKey(j, "py/state"), o, Resolve(n.st, pos, n.r))
         IN Q(n.r, Fill(s.st, n.r, Node(k, cls, <<>>, <<>>, <<>>, AttrsOfDict(s.st, s.r))))
    [] k = "ddict" ->
         LET name == IF HasKey(j, "py/default_factory") THEN "py/default_factory" ELSE "default_factory"
             fac == Rs(GetKey(j, name), o, st1)
             n == New(fac.st, EmptyNode(k, cls))
             es == SelectSeq(j[2], LAMBDA e : e[1] # SKey(name))
             x == RsAttrs(es, o, Resolve(n.st, pos, n.r), <<<<>>, <<>>>>, k)
         IN Q(n.r, Fill(x.st, n.r, Node(k, cls, <<fac.r>>, <<>>, x.r[2], x.r[1])))
    [] OTHER ->
         LET n == New(st1, EmptyNode(k, cls))
             x == RsAttrs(j[2], o, Resolve(n.st, pos, n.r), <<<<>>, <<>>>>, k)
             s == IF ~HasKey(j, "py/seq") THEN Q(<<>>, x.st)
                  ELSE IF k = "setsub" THEN RsSeqNow(GetKey(j, "py/seq")[2], o, x.st)
                  ELSE RsSeq(GetKey(j, "py/seq")[2], o, x.st)
         IN Q(n.r, Fill(s.st, n.r, Node(k, cls, s.r, <<>>, x.r[2], x.r[1])))

Digit(c) == CHOOSE n \in 0..9 : ToString(n) = c
RECURSIVE StrToNat(_)
StrToNat(t) == IF Len(t) = 1 THEN Digit(t)
               ELSE 10 * StrToNat(SubSeq(t, 1, Len(t) - 1)) + Digit(SubSeq(t, Len(t), Len(t)))

(* Payloads of the wrong type stand for nothing.                             *)
ListIn(j, tag) == IF IsArr(GetKey(j, tag)) THEN GetKey(j, tag)[2] ELSE <<>>
BytesIn(p) == IF IsLit(p) /\ p[2] = "bytes" THEN p[3] ELSE ""
IsNumber(p) == IsLit(p) /\ p[2] = "int" /\ Len(p[3]) < 7 /\ SubSeq(p[3], 1, 1) # "-"

Rs(j, o, st) ==
  IF IsLit(j) THEN Q(Atom(j[2], j[3]), st)
  ELSE IF IsArr(j)
  THEN LET n == New(st, EmptyNode("list", "list"))
           x == RsSeq(j[2], o, Number(n.st, n.r))
       IN Q(n.r, Fill(x.st, n.r, Node("list", "list", x.r, <<>>, <<>>, <<>>)))
  ELSE IF HasKey(j, "py/tuple")
  THEN LET x == RsSeqNow(ListIn(j, "py/tuple"), o, st) IN New(x.st, Node("tuple", "tuple", x.r, <<>>, <<>>, <<>>))
  ELSE IF HasKey(j, "py/set")
  THEN LET x == RsSeqNow(ListIn(j, "py/set"), o, st) IN New(x.st, Node("set", "set", x.r, <<>>, <<>>, <<>>))
  ELSE IF HasKey(j, "py/b64") THEN Q(Atom("bytes", BytesIn(GetKey(j, "py/b64"))), st)
  ELSE IF HasKey(j, "py/b85") THEN Q(Atom("bytes", BytesIn(GetKey(j, "py/b85"))), st)
  ELSE IF HasKey(j, "py/bytea")
  THEN LET p == GetKey(j, "py/bytea") IN
       Q(Atom("bytearray", IF ~IsObj(p) THEN ""
                           ELSE IF HasKey(p, "py/b85") THEN BytesIn(GetKey(p, "py/b85"))
                           ELSE IF HasKey(p, "py/b64") THEN BytesIn(GetKey(p, "py/b64")) ELSE ""), st)
  ELSE IF HasKey(j, "py/id")
  THEN LET p == GetKey(j, "py/id")
           k == StrToNat(p[3]) + 1
       IN IF ~IsNumber(p) THEN Q(NoneR, st)
          ELSE Q(IF k <= Len(st.objs) THEN st.objs[k] ELSE Px(k), st)
  ELSE IF HasKey(j, "py/iterator")
  THEN LET n == New(st, EmptyNode("iter", "iterator"))
           x == RsSeq(ListIn(j, "py/iterator"), o, Number(n.st, n.r))
       IN Q(n.r, Fill(x.st, n.r, Node("iter", "iterator", x.r, <<>>, <<>>, <<>>)))
  ELSE IF HasKey(j, "py/object") THEN RsObject(j, o, st)
  ELSE IF HasKey(j, "py/type")
  THEN LET c == GetKey(j, "py/type")[3] IN
       IF IsGone(st, c) THEN Raw(j, st) ELSE Q(Atom("type", Load(st, c)), st)
  ELSE IF HasKey(j, "py/reduce") THEN RsReduce(j, o, st)
  ELSE IF HasKey(j, "py/function")
  THEN LET c == GetKey(j, "py/function")[3] IN
       Q(IF IsGone(st, c) THEN NoneR
         ELSE IF Load(st, c) # c THEN Atom("type", Load(st, c)) ELSE Atom("func", c), st)
  ELSE IF HasKey(j, "py/mod")
  THEN LET c == GetKey(j, "py/mod")[3]
           n == New(st, EmptyNode("module", c))
       IN IF InSeq(st.gone, c) THEN Q(NoneR, Number(st, NoneR)) ELSE Q(n.r, Number(n.st, n.r))
  ELSE IF HasKey(j, "py/repr")   \* the text of an expression
  THEN LET c == GetKey(j, "py/repr")[3] IN
       IF ~o.safe THEN LET r == Atom("str", "evaluated") IN Q(r, [Number(st, r) EXCEPT !.fired = @ + 1])
       ELSE LET r == IF InSeq(st.gone, c) THEN NoneR ELSE Atom("func", After(c, "/", Len(c))) IN Q(r, Number(st, r))
  ELSE LET n == New(st, EmptyNode("dict", "dict"))
           \* version 1 of the format did not number dictionaries
           v1 == "v1" \in DOMAIN o /\ o.v1
           x == RsDict(j[2], o, IF v1 THEN n.st ELSE Number(n.st, n.r))
       IN Q(n.r, Fill(x.st, n.r, Node("dict", "dict", <<>>, <<>>, x.r, <<>>)))

(* The final sweep: placeholders held by elements, entry values and          *)
(* attributes of mutable nodes are replaced by the real objects.             *)
Swap(st, r) == IF IsPx(r) THEN (IF r[2] <= Len(st.objs) THEN st.objs[r[2]] ELSE NoneR) ELSE r
SweptSeq == {"list", "listsub", "iter"}
SweptItems == {"dict", "dictsub", "ddict"}
SweptAttrs == {"obj", "dictsub", "listsub", "setsub", "tupsub", "stated", "newargs", "newargsex", "initargs", "argstate"}
Sweep(st) ==
  [i \in 1..Len(st.h) |->
     LET n == st.h[i] IN
     [n EXCEPT !.seq = IF n.k \in SweptSeq THEN [x \in 1..Len(@) |-> Swap(st, @[x])] ELSE @,
               !.items = IF n.k \in SweptItems THEN [x \in 1..Len(@) |-> <<@[x][1], Swap(st, @[x][2]), @[x][3]>>] ELSE @,
               !.attrs = IF n.k \in SweptAttrs THEN [x \in 1..Len(@) |-> <<@[x][1], Swap(st, @[x][2])>>] ELSE @]]

ClassTable(h) == [i \in 1..Len(h) |-> <<h[i].c, h[i].k>>]

RestoreIn(j, o, env) ==
  LET x == Rs(j, o, env)
  IN [r |-> Swap(x.st, x.r), h |-> Now(Sweep(x.st)), objs |-> x.st.objs, miss |-> x.st.miss, fired |-> x.st.fired]
Restore(j, o, ct) == RestoreIn(j, o, [Env0 EXCEPT !.ct = ct])

-----------------------------------------------------------------------------
(* What a graph denotes once unsupported members are taken out and iterators *)
(* have been read.                                                           *)
PlainIn(h, o, s) == [x \in 1..Len(s) |->
                       IF IsLambda(s[x]) THEN NoneR
                       ELSE IF IsAtom(s[x]) THEN s[x]
                       ELSE IF h[s[x][2]].k \in {"null", "hnone"} THEN NoneR
                       ELSE IF h[s[x][2]].k = "hplain" THEN Atom("str", "plain")
                       ELSE IF h[s[x][2]].k = "fail" THEN o.fs ELSE s[x]]
View(h, o) ==
  [i \in 1..Len(h) |->
    LET n == h[i]
        at == SelectSeq(n.attrs, LAMBDA e : ~IsLambda(e[2]))
        \* a dictionary entry is left out, a pair given to a reduction is not
        it == IF n.k \in ReduceKinds THEN n.items ELSE SelectSeq(n.items, LAMBDA e : ~IsLambda(e[2]))
        plain == [n EXCEPT !.seq = PlainIn(h, o, @), !.ext = PlainIn(h, o, @),
                           !.items = [x \in 1..Len(it) |-> <<PlainIn(h, o, <<it[x][1]>>)[1], PlainIn(h, o, <<it[x][2]>>)[1], it[x][3]>>],
                           !.attrs = [x \in 1..Len(at) |-> <<at[x][1], PlainIn(h, o, <<at[x][2]>>)[1]>>]]
    IN IF n.k = "iter" THEN [plain EXCEPT !.c = "iterator", !.seq = Taken(@, o)] ELSE plain]
ViewRef(h, o, r) == PlainIn(h, o, <<r>>)[1]

(* Dictionary keys as the default options write and read them.               *)
CoercedItems(s) ==
  LET keep == SelectSeq(s, LAMBDA e : ~(StrKey(e[1]) /\ e[1][3] \in Tags)) IN
  [x \in 1..Len(keep) |-> <<Atom("str", CoercedKey(keep[x])), keep[x][2], "~">>]
RECURSIVE LastWins(_,_)
LastWins(s, acc) == IF s = <<>> THEN acc ELSE LastWins(Tail(s), PutItem(acc, s[1][1], s[1][2]))
Coerced(h) == [i \in 1..Len(h) |->
                IF h[i].k \in {"dict", "dictsub", "ddict"}
                THEN [h[i] EXCEPT !.items = LastWins(CoercedItems(@), <<>>)] ELSE h[i]]
=============================================================================
