------------------------------- MODULE Layers -------------------------------
(* The editable part of a document: layers with a schema and an ordered     *)
(* sequence of nodes. The state is a record                                 *)
(*   layers : sequence of [lid, name, fields, order] in document order      *)
(*   nodes  : node number -> [own, vals]; own is the owning layer instance  *)
(*            or 0; vals is a function from field names to values           *)
(*   lname  : layer instance -> name (also of layers that were removed)     *)
(*   texts  : names of the texts                                            *)
(* May(s, op) is the set of outcomes [res, ret, layers, nodes] the design   *)
(* allows for one operation in state s.                                     *)
EXTENDS DocValues, SequencesExt, TLC

Fields(S) == {S[i].f : i \in 1..Len(S)}
FieldOf(fields, f) == fields[CHOOSE i \in 1..Len(fields) : fields[i].f = f]
Over(base, up) == [f \in DOMAIN base \cup DOMAIN up |-> IF f \in DOMAIN up THEN up[f] ELSE base[f]]
Without(vals, F) == [f \in DOMAIN vals \ F |-> vals[f]]
Fn(pairs) == [f \in {pairs[i].f : i \in 1..Len(pairs)} |-> (pairs[CHOOSE i \in 1..Len(pairs) : pairs[i].f = f]).v]

LIndex(s, lid) == CHOOSE i \in 1..Len(s.layers) : s.layers[i].lid = lid
HasLayer(s, lid) == \E i \in 1..Len(s.layers) : s.layers[i].lid = lid
LayerOf(s, lid) == s.layers[LIndex(s, lid)]
SetLayer(s, L) == [s EXCEPT !.layers[LIndex(s, L.lid)] = L]

Defaults(fields) == [f \in {fields[i].f : i \in {j \in 1..Len(fields) : fields[j].d.k # "none"}} |-> FieldOf(fields, f).d]

Own(s, n) == IF n \in 1..Len(s.nodes) THEN s.nodes[n].own ELSE 0
LName(s, l) == s.lname[l]
Pos(s, n) == LET o == LayerOf(s, Own(s, n)).order IN CHOOSE i \in 1..Len(o) : o[i] = n
Leq(s, a, b) ==
  IF Own(s, a) = 0 \/ Own(s, b) = 0 THEN "n"
  ELSE IF Own(s, a) # Own(s, b) \/ ~HasLayer(s, Own(s, a)) THEN "?"
  ELSE IF Pos(s, a) <= Pos(s, b) THEN "y" ELSE "n"

\* verdict on the declared fields of one node's values: "y", "n" or "?"
Check(s, fields, vals) ==
  LET F == Fields(fields) \cap DOMAIN vals
      unspec == {f \in F : Unspecified(FieldOf(fields, f), vals[f], LAMBDA n : Own(s, n), LAMBDA l : LName(s, l),
                                         LAMBDA a, b : Leq(s, a, b))}
      bad == {f \in F \ unspec : ~ValidValue(FieldOf(fields, f), vals[f], LAMBDA n : Own(s, n), LAMBDA l : LName(s, l),
                                             LAMBDA a, b : Leq(s, a, b))}
      out == {f \in F : ~Inside(FieldOf(fields, f), vals[f], LAMBDA n : Own(s, n), LAMBDA l : HasLayer(s, l))}
  IN IF bad # {} THEN "n" ELSE IF unspec # {} \/ out # {} THEN "?" ELSE "y"

\* a whole document, for encoding
CheckDoc(s, extraOk, typed) ==
  LET L(i) == s.layers[i]
      names == {L(i).name : i \in 1..Len(s.layers)}
      schemaBad == \E i \in 1..Len(s.layers) : \E j \in 1..Len(L(i).fields) :
                      LET ft == L(i).fields[j] IN
                      \/ ft.t \in RefTypes /\ ft.a \notin names
                      \/ ft.t = "span" /\ ft.a \notin s.texts
      outside(i, n) == \E f \in Fields(L(i).fields) \cap DOMAIN s.nodes[n].vals :
                         ~Inside(FieldOf(L(i).fields, f), s.nodes[n].vals[f], LAMBDA m : Own(s, m), LAMBDA l : HasLayer(s, l))
      nodeBad == \E i \in 1..Len(s.layers) : \E j \in 1..Len(L(i).order) :
                   LET n == L(i).order[j] IN
                   \/ ~extraOk /\ ~(DOMAIN s.nodes[n].vals \subseteq Fields(L(i).fields))
                   \/ typed /\ (Check(s, L(i).fields, s.nodes[n].vals) = "n" \/ outside(i, n))
      unsure == \E i \in 1..Len(s.layers) : \E j \in 1..Len(L(i).order) :
                   LET n == L(i).order[j] IN Check(s, L(i).fields, s.nodes[n].vals) # "y"
  IN IF schemaBad \/ nodeBad THEN "n" ELSE IF unsure THEN "?" ELSE "y"

-----------------------------------------------------------------------------
Out(res, ret, s) == [res |-> res, ret |-> ret, layers |-> s.layers, nodes |-> s.nodes]
Keep(s) == {Out("err", "-", s)}
Same(s) == {Out("ok", "-", s)}

\* put the nodes of sequence q at the end of layer lid
Put(s, lid, q) ==
  LET L == LayerOf(s, lid) IN
  [SetLayer(s, [L EXCEPT !.order = @ \o q]) EXCEPT !.nodes = [n \in DOMAIN s.nodes |->
       IF \E i \in 1..Len(q) : q[i] = n THEN [s.nodes[n] EXCEPT !.own = lid] ELSE s.nodes[n]]]
\* take the nodes of set R out of layer lid
Take(s, lid, R) ==
  LET L == LayerOf(s, lid) IN
  [SetLayer(s, [L EXCEPT !.order = SelectSeq(@, LAMBDA n : n \notin R)]) EXCEPT !.nodes = [n \in DOMAIN s.nodes |->
       IF n \in R THEN [s.nodes[n] EXCEPT !.own = 0] ELSE s.nodes[n]]]
Fill(s, lid, q) ==
  LET D == Defaults(LayerOf(s, lid).fields) IN
  [s EXCEPT !.nodes = [n \in DOMAIN s.nodes |->
       IF \E i \in 1..Len(q) : q[i] = n THEN [s.nodes[n] EXCEPT !.vals = Over(D, @)] ELSE s.nodes[n]]]

AddKw(s, op) ==
  LET L == LayerOf(s, op.lid)
      vals == Over(Defaults(L.fields), Fn(op.kw))
      n == Len(s.nodes) + 1
      v == Check(s, L.fields, vals)
      s1 == [s EXCEPT !.nodes = Append(@, [own |-> 0, vals |-> vals])]
      yes == {Out("ok", "-", Put(s1, op.lid, <<n>>))}
  IN CASE v = "y" -> yes [] v = "n" -> Keep(s) [] OTHER -> yes \cup Keep(s)

\* the first item that may not be added: not a node, owned, or a repetition
RECURSIVE AddStop(_, _, _)
AddStop(s, q, k) ==
  IF k > Len(q) THEN k
  ELSE IF q[k] <= 0 \/ Own(s, q[k]) # 0 \/ \E j \in 1..(k - 1) : q[j] = q[k] THEN k
  ELSE AddStop(s, q, k + 1)

AddNodes(s, op) ==
  LET k == AddStop(s, op.items, 1) IN
  IF k > Len(op.items) THEN {Out("ok", "-", Put(s, op.lid, op.items))}
  ELSE {Out("err", "-", Put(s, op.lid, SubSeq(op.items, 1, j))) : j \in 0..(k - 1)}

AddMany(s, op) ==
  LET k == AddStop(s, op.items, 1)
      q == op.items
      part(j) == LET p == SubSeq(q, 1, j) IN {Out("err", "-", Put(s, op.lid, p)), Out("err", "-", Fill(Put(s, op.lid, p), op.lid, p))}
      full == Put(s, op.lid, q)
      done == {Out("ok", "-", IF op.fill THEN Fill(full, op.lid, q) ELSE full)}
      verdicts == {Check(full, LayerOf(s, op.lid).fields, s.nodes[q[i]].vals) : i \in 1..Len(q)}
      refused == UNION {part(j) : j \in 0..Len(q)}
  IN IF k <= Len(q) THEN UNION {part(j) : j \in 0..(k - 1)}
     ELSE IF ~op.check THEN done
     ELSE IF "n" \in verdicts THEN refused
     ELSE IF "?" \in verdicts THEN done \cup refused
     ELSE done

\* the first item that may not be removed (-1: None is skipped)
RECURSIVE RemStop(_, _, _, _)
RemStop(s, lid, q, k) ==
  IF k > Len(q) THEN k
  ELSE IF q[k] = -1 THEN RemStop(s, lid, q, k + 1)
  ELSE IF q[k] = 0 \/ Own(s, q[k]) # lid \/ \E j \in 1..(k - 1) : q[j] = q[k] THEN k
  ELSE RemStop(s, lid, q, k + 1)
Members(q, k) == {q[j] : j \in {i \in 1..k : q[i] > 0}}
RemoveMany(s, op) ==
  LET k == RemStop(s, op.lid, op.items, 1) IN
  IF k > Len(op.items) THEN {Out("ok", "-", Take(s, op.lid, Members(op.items, Len(op.items))))}
  ELSE {Out("err", "-", Take(s, op.lid, Members(op.items, j))) : j \in 0..(k - 1)}

Retain(s, op) ==
  LET L == LayerOf(s, op.lid)
      R == Range(op.items)
  IN IF op.bad \/ \E n \in R : n <= 0 \/ Own(s, n) # op.lid THEN Keep(s)
     ELSE {Out("ok", "-", Take(s, op.lid, Range(L.order) \ R))}

\* stable order by the rank of the key of each node
Sort(s, op) ==
  LET L == LayerOf(s, op.lid)
      n == Len(L.order)
      before(i, j) == op.keys[i] < op.keys[j] \/ (op.keys[i] = op.keys[j] /\ i < j)
      perm == SetToSortSeq(1..n, before)
  IN IF op.fail THEN Keep(s)
     ELSE {Out("ok", "-", SetLayer(s, [L EXCEPT !.order = [i \in 1..n |-> L.order[perm[i]]]]))}

AddField(s, op) ==
  LET L == LayerOf(s, op.lid)
      s1 == SetLayer(s, [L EXCEPT !.fields = Append(@, op.ft)])
  IN IF op.bad \/ op.ft.f \in Fields(L.fields) THEN Keep(s)
     ELSE IF ~op.init \/ op.ft.d.k = "none" THEN {Out("ok", "-", s1)}
     ELSE {Out("ok", "-", [s1 EXCEPT !.nodes = [n \in DOMAIN s.nodes |->
              IF s.nodes[n].own = op.lid THEN [s.nodes[n] EXCEPT !.vals = Over(@, [f \in {op.ft.f} |-> op.ft.d])] ELSE s.nodes[n]]])}

DropField(s, lid, f, leave) ==
  LET L == LayerOf(s, lid)
      s1 == SetLayer(s, [L EXCEPT !.fields = SelectSeq(@, LAMBDA x : x.f # f)])
  IN IF leave THEN s1
     ELSE [s1 EXCEPT !.nodes = [n \in DOMAIN s.nodes |->
              IF s.nodes[n].own = lid THEN [s.nodes[n] EXCEPT !.vals = Without(@, {f})] ELSE s.nodes[n]]]
RemoveField(s, op) ==
  IF op.f \notin Fields(LayerOf(s, op.lid).fields) THEN {Out("ok", "F", s)}
  ELSE {Out("ok", "T", DropField(s, op.lid, op.f, op.leave))}

\* declared references from other layers to the layer named nm
Refs(s, nm) == {r \in UNION {{[lid |-> s.layers[i].lid, f |-> s.layers[i].fields[j].f] :
                                j \in {k \in 1..Len(s.layers[i].fields) : s.layers[i].fields[k].t \in RefTypes
                                                                          /\ s.layers[i].fields[k].a = nm}} :
                             i \in {k \in 1..Len(s.layers) : s.layers[k].name # nm}} : TRUE}
RECURSIVE DropRefs(_, _)
DropRefs(s, R) == IF R = {} THEN s ELSE LET r == CHOOSE x \in R : TRUE IN DropRefs(DropField(s, r.lid, r.f, FALSE), R \ {r})
RemoveLayer(s, op) ==
  LET R == Refs(s, op.name)
      gone(x) == [x EXCEPT !.layers = SelectSeq(@, LAMBDA L : L.name # op.name)]
  IN IF \A i \in 1..Len(s.layers) : s.layers[i].name # op.name THEN {Out("ok", IF op.viaDel THEN "-" ELSE "F", s)}
     ELSE IF R # {} /\ ~op.cascade THEN Keep(s)
     ELSE {Out("ok", IF op.viaDel THEN "-" ELSE "T", gone(DropRefs(s, R)))}

AddLayer(s, op) ==
  IF op.bad THEN Keep(s)
  ELSE {Out("ok", "-", [s EXCEPT !.layers = Append(@, [lid |-> op.lid, name |-> op.name, fields |-> op.fields, order |-> <<>>])])}

SetValue(s, op) == {Out("ok", "-", [s EXCEPT !.nodes[op.n].vals = Over(@, [f \in {op.f} |-> op.v])])}
UnsetValue(s, op) == {Out("ok", "-", [s EXCEPT !.nodes[op.n].vals = Without(@, {op.f})])}
NewNodes(s, op) == {Out("ok", "-", [s EXCEPT !.nodes = @ \o [i \in 1..Len(op.kws) |-> [own |-> 0, vals |-> Fn(op.kws[i])]]])}
NewNode(s, op) == {Out("ok", "-", [s EXCEPT !.nodes = Append(@, [own |-> 0, vals |-> Fn(op.kw)])])}

Encode(s, op) ==
  LET v == CheckDoc(s, op.extra, op.typed) IN
  CASE v = "y" -> Same(s) [] v = "n" -> Keep(s) [] OTHER -> Same(s) \cup Keep(s)

May(s, op) ==
  CASE op.op = "add_layer"  -> AddLayer(s, op)
    [] op.op = "new_node"   -> NewNode(s, op)
    [] op.op = "new_nodes"  -> NewNodes(s, op)
    [] op.op = "add_kw"     -> AddKw(s, op)
    [] op.op = "add_nodes"  -> AddNodes(s, op)
    [] op.op = "add_many"   -> AddMany(s, op)
    [] op.op \in {"remove", "detach", "delitem", "remove_many"} -> RemoveMany(s, op)
    [] op.op = "retain"     -> Retain(s, op)
    [] op.op = "sort"       -> Sort(s, op)
    [] op.op = "compact"    -> Same(s)
    [] op.op = "add_field"  -> AddField(s, op)
    [] op.op = "remove_field" -> RemoveField(s, op)
    [] op.op = "set"        -> SetValue(s, op)
    [] op.op = "unset"      -> UnsetValue(s, op)
    [] op.op = "remove_layer" -> RemoveLayer(s, op)
    [] op.op = "encode"     -> Encode(s, op)
    [] OTHER                -> Same(s)        \* queries change nothing
=============================================================================
