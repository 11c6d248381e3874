------------------------------- MODULE Frames ------------------------------
(* Tables: data frames, series and indexes.                                  *)
(*                                                                           *)
(* A type is <<name, name of its dtype, whether values may be missing, how   *)
(* many different labels it has>>.  A cell is a number; 0 is a missing       *)
(* value, equal numbers in one column are equal values.                      *)
(*   column   [t, cells]                                                     *)
(*   labels   [levels: sequence of columns, names: one for each level]       *)
(*   object   [kind, index: labels, columns: labels, cols: sequence of       *)
(*             columns, name]                                                *)
(* A series has one column and a name, an index has no columns.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Types
Named(n) == CHOOSE t \in Types : t[1] = n
MayMiss(n) == Named(n)[3]
Distinct(n) == Named(n)[4]

-----------------------------------------------------------------------------
(* The written form of a frame: cells by label, and the types of the columns *)
(* as runs of equal types.                                                   *)
RECURSIVE Runs(_), Unruns(_)
Runs(s) ==
  IF s = <<>> THEN <<>>
  ELSE LET rest == Runs(Tail(s)) IN
       IF rest # <<>> /\ rest[1][1] = Head(s) THEN <<<<Head(s), rest[1][2] + 1>>>> \o Tail(rest)
       ELSE <<<<Head(s), 1>>>> \o rest
Unruns(r) == IF r = <<>> THEN <<>> ELSE [i \in 1..r[1][2] |-> r[1][1]] \o Unruns(Tail(r))

Label(c, j) == [i \in 1..Len(c.levels) |-> c.levels[i].cells[j]]
Written(f) == [data |-> [x \in {Label(f.columns, j) : j \in 1..Len(f.cols)} |->
                           f.cols[CHOOSE j \in 1..Len(f.cols) : Label(f.columns, j) = x].cells],
               types |-> Runs([j \in 1..Len(f.cols) |-> f.cols[j].t]),
               index |-> f.index, columns |-> f.columns]
Rebuilt(w) == LET types == Unruns(w.types) IN
              [kind |-> "frame", index |-> w.index, columns |-> w.columns, name |-> "none",
               cols |-> [j \in 1..Len(types) |-> [t |-> types[j], cells |-> w.data[Label(w.columns, j)]]]]

-----------------------------------------------------------------------------
CONSTANTS Kinds, Rows, ColTypes, RowTypes, LabelTypes, LevelTypes, Names, Tokens, Width, Stretches,
          MaxObjs, MaxCols, MaxLevels, MaxMembers, Random
VARIABLES objs, graph

Pick(S) == IF Random THEN {RandomElement(S)} ELSE S
(* Patterns of cells, repeated and stretched to any number of rows.          *)
Patterns(t) == [1..Width -> {k \in Tokens : (k = 0 => MayMiss(t)) /\ k <= Distinct(t)}]
LevelPatterns(t) == {p \in Patterns(t) : p[1] # 0}
Spread(p, s, n) == [i \in 1..n |-> p[(((i - 1) \div s) % Len(p)) + 1]]
None == [levels |-> <<>>, names |-> <<>>]
One(t, cells, name) == [levels |-> <<[t |-> t, cells |-> cells]>>, names |-> <<name>>]
Two(t, cells, name, u, more, second) == [levels |-> <<[t |-> t, cells |-> cells], [t |-> u, cells |-> more]>>, names |-> <<name, second>>]

(* Labels of columns: as many as there may be, all different.                *)
AllLabels(n) == [j \in 1..n |-> j]
Halves(n) == [j \in 1..n |-> (j + 1) \div 2]

(* Labels of several levels are not empty.                                   *)
Last == objs[Len(objs)]
Ready == objs # <<>> => Len(Last.columns.levels) < 2 \/ Last.cols # <<>>

(* Everything an object may start with, given its row labels.                *)
Add(o) == objs' = Append(objs, o)
With(k, n, ix) ==
  CASE k = "index" -> Add([kind |-> k, index |-> ix, columns |-> None, cols |-> <<>>, name |-> "none"])
    [] k = "series" ->
         \E t \in Pick(ColTypes) : \E p \in Pick(Patterns(t)) : \E s \in Pick(Stretches) : \E nm \in Pick(Names) :
           Add([kind |-> k, index |-> ix, columns |-> None, name |-> nm, cols |-> <<[t |-> t, cells |-> Spread(p, s, n)]>>])
    [] k = "frame" ->
         \E m \in Pick(1..MaxLevels) : \E nm \in Pick(Names) :
         \E t \in Pick(IF m = 1 THEN LabelTypes ELSE LevelTypes) : \E u \in (IF m = 1 THEN {t} ELSE Pick(LevelTypes)) :
           LET w == IF Distinct(u) < MaxCols THEN Distinct(u) ELSE MaxCols IN
           Add([kind |-> k, index |-> ix, name |-> "none", cols |-> <<>>,
                columns |-> IF m = 1 THEN One(t, AllLabels(w), nm)
                            ELSE Two(t, Halves(w), nm, u, AllLabels(w), "none")])
BeginOne ==
  /\ Len(objs) < MaxObjs /\ graph = <<>> /\ Ready
  /\ \E k \in Pick(Kinds) : \E n \in Pick(Rows) : \E t \in Pick(RowTypes) : \E p \in Pick(Patterns(t)) : \E s \in Pick(Stretches) :
     \E nm \in Pick(Names) : With(k, n, One(t, Spread(p, s, n), nm))
  /\ UNCHANGED graph
BeginTwo ==
  /\ Len(objs) < MaxObjs /\ graph = <<>> /\ Ready /\ MaxLevels > 1
  /\ \E k \in Pick(Kinds) : \E n \in Pick(Rows \ {0}) : \E t \in Pick(LevelTypes) : \E u \in Pick(LevelTypes) :
     \E p \in Pick(LevelPatterns(t)) : \E q \in Pick(LevelPatterns(u)) : \E s \in Pick(Stretches) :
     \E nm \in Pick(Names) : \E nm2 \in Pick(Names) :
       With(k, n, Two(t, Spread(p, s, n), nm, u, Spread(q, 1, n), nm2))
  /\ UNCHANGED graph
AddColumn ==
  /\ objs # <<>> /\ graph = <<>> /\ Last.kind = "frame"
  /\ Len(Last.cols) < Len(Last.columns.levels[1].cells)
  /\ \E t \in Pick(ColTypes) : \E p \in Pick(Patterns(t)) : \E s \in Pick(Stretches) :
       objs' = [objs EXCEPT ![Len(objs)].cols =
                  Append(@, [t |-> t, cells |-> Spread(p, s, Len(Last.index.levels[1].cells))])]
  /\ UNCHANGED graph
Place == /\ objs # <<>> /\ Ready /\ Len(graph) < MaxMembers
         /\ \E i \in Pick(1..Len(objs)) : graph' = Append(graph, i)
         /\ UNCHANGED objs
Init == objs = <<>> /\ graph = <<>>
Next == BeginOne \/ BeginTwo \/ AddColumn \/ Place
FSpec == Init /\ [][Next]_<<objs, graph>>

(* A frame has as many labels as columns.                                    *)
Trim(o) == [o EXCEPT !.columns.levels = [i \in 1..Len(@) |-> [@[i] EXCEPT !.cells = SubSeq(@, 1, Len(o.cols))]]]
Whole == [i \in 1..Len(objs) |-> Trim(objs[i])]

Sound(o) ==
  LET types == [j \in 1..Len(o.cols) |-> o.cols[j].t] r == Runs(types) IN
  /\ Unruns(r) = types
  /\ \A i \in 1..Len(r) : r[i][2] > 0 /\ (i > 1 => r[i][1] # r[i-1][1])
  /\ o.kind = "frame" => Rebuilt(Written(o)) = o
  /\ \A i \in 1..Len(o.cols) : \A j \in 1..Len(o.index.levels) : Len(o.cols[i].cells) = Len(o.index.levels[j].cells)
Laws == LET w == Whole IN
  /\ \A i \in 1..Len(w) : Sound(w[i])
  /\ graph # <<>> => PrintT(<<"CASE", ToJson([objs |-> w, graph |-> graph])>>)
=============================================================================
