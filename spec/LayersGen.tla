------------------------------ MODULE LayersGen ------------------------------
(* All histories of D editing commands on one layer of N nodes, explored on  *)
(* the specification: every outcome it allows keeps the document consistent, *)
(* refusals keep the layer, and commands that only query or encode keep all. *)
(* Each complete history is printed as a test case for the real code.        *)
EXTENDS Layers, Json
CONSTANTS N, D
VARIABLES s, hist, gone, ok
vars == <<s, hist, gone, ok>>

IntV(k) == [k |-> "int", s |-> ToString(k), w |-> 32, e |-> <<>>]
Ref(n) == [k |-> "node", s |-> "", w |-> 0, e |-> <<n>>]
FieldsL == <<[f |-> "k", t |-> "i32", a |-> "", d |-> IntV(0)], [f |-> "r", t |-> "noderef", a |-> "L1", d |-> NoVal]>>
Init ==
  /\ s = [layers |-> <<[lid |-> 1, name |-> "L1", fields |-> FieldsL, order |-> [i \in 1..N |-> i]]>>,
          nodes |-> [i \in 1..N |-> [own |-> 1, vals |-> [f \in {"k"} |-> IntV(i)]]], lname |-> <<"L1">>, texts |-> {}]
  /\ hist = <<>> /\ gone = <<>> /\ ok = TRUE

C(op, k) == [op |-> op, k |-> k]
Commands == { C("add", 0), C("addmany", 2), C("readd", 0), C("remove", 0), C("remove", 1), C("remove", 2), C("removehalf", 0),
              C("removehalf", 1), C("removeall", 0), C("retain", 1), C("retain", -2), C("retain", 14), C("sort", -1), C("sort", 0), C("sortfail", 0),
              C("compact", 0), C("encode", 0), C("badadd", 0), C("badmany", 1), C("badvalue", 0), C("badremove", 0), C("badretain", 0),
              C("link", 0) }

O == s.layers[1].order
n == Len(O)
At(k) == O[(k % n) + 1]
WithNew(t, k) == [t EXCEPT !.nodes = @ \o [i \in 1..k |-> [own |-> 0, vals |-> [f \in {"k"} |-> IntV(100 + i)]]]]
Fresh(k) == [i \in 1..k |-> Len(s.nodes) + i]
Base == [lid |-> 1]
\* the state in which the command's operation runs, and the operation
Prep(q) == IF q.op = "addmany" THEN WithNew(s, q.k) ELSE IF q.op = "badadd" THEN WithNew(s, 1) ELSE IF q.op = "badmany" THEN WithNew(s, 2) ELSE s
Able(q) == CASE q.op \in {"remove", "link", "badadd", "badmany"} -> n > 0
             [] q.op = "readd" -> gone # <<>> /\ s.nodes[gone[Len(gone)]].own = 0
             [] q.op = "sortfail" -> n > 1
             [] OTHER -> TRUE
Op(q) ==
  CASE q.op = "add" -> [op |-> "add_kw", lid |-> 1, kw |-> <<[f |-> "k", v |-> IntV(7)]>>]
    [] q.op = "addmany" -> [op |-> "add_many", lid |-> 1, items |-> Fresh(q.k), fill |-> TRUE, check |-> TRUE]
    [] q.op = "readd" -> [op |-> "add_nodes", lid |-> 1, items |-> <<gone[Len(gone)]>>]
    [] q.op = "remove" -> [op |-> "remove", lid |-> 1, items |-> <<At(q.k)>>]
    [] q.op = "removehalf" -> [op |-> "remove_many", lid |-> 1, items |-> SelectSeq(O, LAMBDA u : (CHOOSE i \in 1..n : O[i] = u) % 2 = (q.k + 1) % 2)]
    [] q.op = "removeall" -> [op |-> "remove_many", lid |-> 1, items |-> O]
    [] q.op = "retain" -> [op |-> "retain", lid |-> 1, items |-> IF q.k >= 0 THEN SubSeq(O, 1, IF q.k < n THEN q.k ELSE n) ELSE SubSeq(O, IF n + q.k < 0 THEN 1 ELSE n + q.k + 1, n), bad |-> FALSE]
    [] q.op = "sort" -> [op |-> "sort", lid |-> 1, keys |-> [i \in 1..n |-> IF q.k < 0 THEN n - i ELSE i % 2], fail |-> FALSE]
    [] q.op = "sortfail" -> [op |-> "sort", lid |-> 1, keys |-> [i \in 1..n |-> 0], fail |-> TRUE]
    [] q.op = "compact" -> [op |-> "compact", lid |-> 1]
    [] q.op = "encode" -> [op |-> "encode", extra |-> FALSE, typed |-> TRUE]
    [] q.op = "badadd" -> [op |-> "add_nodes", lid |-> 1, items |-> Fresh(1) \o <<At(0)>>]
    [] q.op = "badmany" -> [op |-> "add_many", lid |-> 1, items |-> <<Len(s.nodes) + 1, At(1), Len(s.nodes) + 2>>, fill |-> TRUE, check |-> TRUE]
    [] q.op = "badvalue" -> [op |-> "add_kw", lid |-> 1, kw |-> <<[f |-> "k", v |-> [k |-> "str", s |-> "no", w |-> 0, e |-> <<>>]]>>]
    [] q.op = "badremove" -> [op |-> "remove_many", lid |-> 1, items |-> IF n > 0 THEN <<At(0), At(0)>> ELSE <<-1, 0>>]
    [] q.op = "badretain" -> [op |-> "retain", lid |-> 1, items |-> <<0>>, bad |-> FALSE]
    [] q.op = "link" -> [op |-> "set", n |-> At(q.k), f |-> "r", v |-> Ref(At(q.k + 1))]

Do(q) ==
  /\ Len(hist) < D
  /\ hist' = Append(hist, q)
  /\ IF ~Able(q) THEN UNCHANGED <<s, gone, ok>>
     ELSE \E o \in May(Prep(q), Op(q)) :
            /\ s' = [Prep(q) EXCEPT !.layers = o.layers, !.nodes = o.nodes]
            /\ gone' = SelectSeq(gone \o O, LAMBDA u : o.nodes[u].own = 0)
            /\ ok' = /\ q.op \in {"badadd", "badmany", "badvalue", "badremove", "badretain", "sortfail"} => o.res = "err"
                     /\ o.res = "err" /\ q.op \in {"badvalue", "badretain", "sortfail", "encode"} => o.layers = s.layers
                     /\ q.op \in {"encode", "compact"} => o.layers = s.layers /\ o.nodes = s.nodes
                     /\ q.op \notin {"encode", "badadd", "badmany", "badvalue", "badremove", "badretain", "sortfail"} => o.res = "ok"
Emit == /\ Len(hist) = D /\ PrintT(ToJson([cls |-> "layer", ops |-> hist])) /\ FALSE /\ UNCHANGED vars
Next == (\E q \in Commands : Do(q)) \/ Emit

\* what C01 and C03 say of every state
Consistent ==
  /\ \A L \in Range(s.layers) : Cardinality(Range(L.order)) = Len(L.order)
                               /\ Range(L.order) = {u \in 1..Len(s.nodes) : s.nodes[u].own = L.lid}
  /\ \A u \in 1..Len(s.nodes) : s.nodes[u].own \in {0, 1}
Inv == Consistent /\ ok
=============================================================================
