------------------------------ MODULE QueryMC ------------------------------
(* All predicates of two levels over two fields of few values, on the layer *)
(* with a node for every pair of values.                                    *)
EXTENDS Query, TLC, Json
VARIABLES p, done
None == [k |-> "none", n |-> 0, q |-> <<>>, t |-> <<>>]
Num(i) == [k |-> "num", n |-> 2 * i, q |-> <<>>, t |-> <<>>]
Vals == {None, Num(0), Num(1)}
Pair(a, b) == ("x" :> a) @@ ("y" :> b)
All == SetToSeq({Pair(a, b) : a \in Vals, b \in Vals})
Nodes == [i \in 1..Len(All) |-> [i |-> i - 1, v |-> All[i]]]
Leaf == {[op |-> "eq", f |-> "x", v |-> Num(0)], [op |-> "ne", f |-> "x", v |-> Num(1)], [op |-> "lt", f |-> "x", v |-> Num(1)],
         [op |-> "ge", f |-> "y", v |-> Num(1)], [op |-> "any", f |-> "y", vs |-> <<Num(0), None>>], [op |-> "has", f |-> "x"],
         [op |-> "none", f |-> "y"], [op |-> "same", f |-> "x", g |-> "y"]}
One == Leaf \cup {[op |-> "not", l |-> a] : a \in Leaf} \cup {[op |-> o, l |-> a, r |-> b] : o \in {"and", "or"}, a \in Leaf, b \in Leaf}
Init == p \in One \cup {[op |-> "not", l |-> a] : a \in One} \cup {[op |-> o, l |-> a, r |-> b] : o \in {"and", "or"}, a \in One, b \in Leaf}
                  \cup {[op |-> o, l |-> b, r |-> a] : o \in {"and", "or"}, a \in One, b \in Leaf}
        /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED p /\ PrintT(ToJson([cls |-> "model", p |-> p]))
Not(a) == [op |-> "not", l |-> a]
Inv ==
  /\ (Defined(p, Nodes) => LET a == Chosen(p, Nodes)  b == Chosen(Not(p), Nodes) IN
        /\ ToSet(a) \cup ToSet(b) = ToSet(Nodes) /\ ToSet(a) \cap ToSet(b) = {}
        /\ Chosen(p, a) = a
        /\ \A i, j \in 1..Len(a) : i < j => a[i].i < a[j].i)
  /\ (p.op = "and" /\ Defined(p.l, Nodes)) => (Defined(p, Nodes) <=> Defined(p.r, Chosen(p.l, Nodes))) /\
        (Defined(p, Nodes) => Chosen(p, Nodes) = Chosen(p.r, Chosen(p.l, Nodes)))
  /\ (p.op \in {"and", "or"}) =>
        \A i \in 1..Len(Nodes) : Eval(Not(p), Nodes[i]) = Eval([op |-> IF p.op = "and" THEN "or" ELSE "and", l |-> Not(p.l), r |-> Not(p.r)], Nodes[i])
=============================================================================
