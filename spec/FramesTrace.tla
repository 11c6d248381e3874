---------------------------- MODULE FramesTrace ----------------------------
(* Judges recorded executions on tables.                                     *)
(*                                                                           *)
(* A record holds: objs and graph; want and got, for each member of the      *)
(* graph, what it is before and after, in the shape of an object of the      *)
(* model with dtypes for types and texts for cells and names; ids the        *)
(* members of the decoded graph, renamed to 1, 2, 3 ... in the order of      *)
(* their first occurrence; tail whether the references behind them are       *)
(* right; err the exception, if any.                                         *)
EXTENDS Frames

CONSTANTS File, Chains
Recs == ndJsonDeserialize(File)
VARIABLE l
TInit == l \in 1..Chains /\ l <= Len(Recs) /\ objs = <<>> /\ graph = <<>>
TNext == l + Chains <= Len(Recs) /\ l' = l + Chains /\ UNCHANGED <<objs, graph>>
TSpec == TInit /\ [][TNext]_<<l, objs, graph>>

RECURSIVE Rename(_,_,_)
Rename(s, known, out) ==
  IF s = <<>> THEN out
  ELSE IF Head(s) \in DOMAIN known THEN Rename(Tail(s), known, Append(out, known[Head(s)]))
  ELSE LET n == Cardinality(DOMAIN known) + 1 IN Rename(Tail(s), known @@ (Head(s) :> n), Append(out, n))

(* The object seen is the one of the model: same kind and dtypes, missing    *)
(* where the model says so, and equal where the model says so.               *)
Fits(col, seen) ==
  /\ seen.dtype = Named(col.t)[2]
  /\ Len(seen.cells) = Len(col.cells)
  /\ \A i \in 1..Len(col.cells) : (col.cells[i] = 0) = seen.cells[i][1]
  /\ Rename(col.cells, <<>>, <<>>) = Rename([i \in 1..Len(seen.cells) |-> seen.cells[i][2]], <<>>, <<>>)
FitsAll(cols, seen) == Len(cols) = Len(seen) /\ \A i \in 1..Len(cols) : Fits(cols[i], seen[i])
Built(o, seen) == /\ o.kind = seen.kind /\ FitsAll(o.cols, seen.cols)
                  /\ FitsAll(o.index.levels, seen.index.levels) /\ FitsAll(o.columns.levels, seen.columns.levels)

Dtypes(cols) == [i \in 1..Len(cols) |-> <<cols[i].dtype, cols[i].more>>]
Missing(cols) == [i \in 1..Len(cols) |-> [j \in 1..Len(cols[i].cells) |-> cols[i].cells[j][1]]]
Differs(w, g) ==
  IF g.kind # w.kind THEN "another kind of object"
  ELSE IF Len(g.cols) # Len(w.cols) THEN "another number of columns"
  ELSE IF Dtypes(g.cols) # Dtypes(w.cols) THEN "another dtype"
  ELSE IF Missing(g.cols) # Missing(w.cols) THEN "other values are missing"
  ELSE IF g.cols # w.cols THEN "other values"
  ELSE IF g.index.names # w.index.names THEN "another index name"
  ELSE IF Dtypes(g.index.levels) # Dtypes(w.index.levels) THEN "another dtype of the index"
  ELSE IF g.index # w.index THEN "other row labels"
  ELSE IF g.columns.names # w.columns.names THEN "another name of the columns"
  ELSE IF Dtypes(g.columns.levels) # Dtypes(w.columns.levels) THEN "another dtype of the columns"
  ELSE IF g.columns # w.columns THEN "other column labels"
  ELSE IF g.name # w.name THEN "another name"
  ELSE "something else"

Verdict(r) ==
  IF r.err # "" THEN "raised: " \o r.err
  ELSE IF \E i \in 1..Len(r.graph) : ~Built(r.objs[r.graph[i]], r.want[i]) THEN "misbuilt by the harness"
  ELSE IF Len(r.got) # Len(r.want) THEN "another number of members"
  ELSE LET bad == {i \in 1..Len(r.want) : r.got[i] # r.want[i]} IN
       IF bad # {} THEN LET i == CHOOSE j \in bad : \A k \in bad : j <= k IN Differs(r.want[i], r.got[i])
       ELSE IF r.ids # Rename(r.graph, <<>>, <<>>) THEN "objects were merged or split"
       ELSE IF ~r.tail THEN "references behind the objects are off"
       ELSE "ok"
Judge == LET v == Verdict(Recs[l]) IN IF v = "ok" THEN TRUE ELSE PrintT(<<"BAD", l, v>>)
=============================================================================
