------------------------------- MODULE Graph -------------------------------
(* Traversals of a graph: kids is, per node 1..N, the sequence of children  *)
(* in order (with repetitions).                                             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

\* nodes at distance d, from the nodes at smaller distances
RECURSIVE Layered(_, _, _)
Layered(kids, front, seen) ==     \* sequence of the sets of nodes at distance 0, 1, ...
  IF front = {} THEN <<>>
  ELSE LET s == seen \cup front IN <<front>> \o Layered(kids, UNION {ToSet(kids[n]) : n \in front} \ s, s)
Levels(kids, start) == Layered(kids, {start}, {})
Reachable(kids, start) == UNION ToSet(Levels(kids, start))

\* result: <<depth, node>>; keep the nodes the predicate accepts
BfsOk(kids, start, keep, res) ==
  LET lev == Levels(kids, start)
      want == UNION {{<<d - 1, n>> : n \in lev[d] \cap keep} : d \in 1..Len(lev)} IN
  /\ ToSet(res) = want
  /\ Len(res) = Cardinality(want)
  /\ \A i \in 1..(Len(res) - 1) : res[i][1] <= res[i + 1][1]

\* preorder: a node, then the nodes below its children in their order
RECURSIVE Visit(_, _, _, _)
Visit(kids, todo, seen, out) ==
  IF todo = <<>> THEN out
  ELSE LET n == Head(todo) IN
       IF n \in seen THEN Visit(kids, Tail(todo), seen, out)
       ELSE Visit(kids, kids[n] \o Tail(todo), seen \cup {n}, Append(out, n))
Preorder(kids, start) == Visit(kids, <<start>>, {}, <<>>)
DfsOk(kids, start, keep, res) == res = SelectSeq(Preorder(kids, start), LAMBDA n : n \in keep)
LeavesOk(kids, start, keep, res) == res = SelectSeq(Preorder(kids, start), LAMBDA n : n \in keep /\ kids[n] = <<>>)

\* the children of a node: the nodes in the named fields, in the order given
\* one: 0 or a node; many: nodes
Children(x, fields) == FlattenSeq([i \in 1..Len(fields) |->
   CASE fields[i] = "one" -> IF x.one = 0 THEN <<>> ELSE <<x.one>>
     [] fields[i] = "two" -> IF x.two = 0 THEN <<>> ELSE <<x.two>>
     [] fields[i] = "many" -> x.many
     [] fields[i] = "more" -> x.more])
=============================================================================
