------------------------------ MODULE LayerImpl ------------------------------
(* The representation the code uses for a layer - slots with gaps, closed    *)
(* when the layer is long and sparse - refines the plain sequence of nodes   *)
(* that Layers works with, for any threshold and any moment of compaction.   *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets
CONSTANTS Nodes, LIM          \* LIM: length from which gaps are closed
VARIABLES slots, id, order    \* order: what the specification says (history variable)
vars == <<slots, id, order>>
Live(q) == SelectSeq(q, LAMBDA x : x # 0)
Ids(q) == [x \in Nodes |-> IF \E i \in 1..Len(q) : q[i] = x THEN CHOOSE i \in 1..Len(q) : q[i] = x ELSE 0]
Init == slots = <<>> /\ id = [x \in Nodes |-> 0] /\ order = <<>>
In(x) == \E i \in 1..Len(order) : order[i] = x
Sparse(q) == 4 * Len(Live(q)) < 3 * Len(q) /\ Len(q) > LIM
Close(q) == IF Sparse(q) THEN Live(q) ELSE q
Add(x) == /\ ~In(x) /\ slots' = Append(slots, x)
          /\ id' = [id EXCEPT ![x] = Len(slots) + 1] /\ order' = Append(order, x)
Drop(S) == /\ S # {} /\ (\A x \in S : In(x))
             /\ LET holes == [i \in 1..Len(slots) |-> IF slots[i] \in S THEN 0 ELSE slots[i]] IN
                /\ slots' = Close(holes)
                \* identities change only where slots moved; those of removed nodes become meaningless
                /\ id' = [x \in Nodes |-> IF x \in S THEN 0 ELSE IF Sparse(holes) THEN Ids(Live(holes))[x] ELSE id[x]]
             /\ order' = SelectSeq(order, LAMBDA x : x \notin S)
Compact == slots' = Live(slots) /\ id' = Ids(Live(slots)) /\ UNCHANGED order
Retain(S) == /\ (\A x \in S : In(x))
             /\ LET q == SelectSeq(slots, LAMBDA x : x # 0 /\ x \in S) IN slots' = q /\ id' = Ids(q)
             /\ order' = SelectSeq(order, LAMBDA x : x \in S)
Sort == LET q == Reverse(Live(slots)) IN slots' = q /\ id' = Ids(q) /\ order' = Reverse(order)
Next == (\E x \in Nodes : Add(x)) \/ (\E S \in SUBSET Nodes : Drop(S) \/ Retain(S)) \/ Compact \/ Sort
Bound == Len(slots) <= Cardinality(Nodes) + 4
Left(x) == LET L == {i \in 1..(id[x] - 1) : slots[i] # 0} IN IF L = {} THEN 0 ELSE slots[CHOOSE i \in L : \A j \in L : j <= i]
Right(x) == LET R == {i \in (id[x] + 1)..Len(slots) : slots[i] # 0} IN IF R = {} THEN 0 ELSE slots[CHOOSE i \in R : \A j \in R : i <= j]
Pos(x) == CHOOSE i \in 1..Len(order) : order[i] = x
Inv == /\ Live(slots) = order                                        \* refinement
       /\ \A x \in Nodes : In(x) => slots[id[x]] = x                  \* indices address their nodes
       /\ \A i, j \in 1..Len(order) : i < j => id[order[i]] < id[order[j]]
       /\ \A x \in Nodes : ~In(x) => id[x] = 0
       /\ \A x \in Nodes : In(x) =>
            /\ Left(x) = (IF Pos(x) = 1 THEN 0 ELSE order[Pos(x) - 1])
            /\ Right(x) = (IF Pos(x) = Len(order) THEN 0 ELSE order[Pos(x) + 1])
       /\ \A x, y \in Nodes : In(x) /\ In(y) /\ id[x] <= id[y] =>
            Live(SubSeq(slots, id[x], id[y])) = SubSeq(order, Pos(x), Pos(y))
=============================================================================
