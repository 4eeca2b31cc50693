------------------------------ MODULE IndexMC ------------------------------
(* All small collections with two properties of two values and all searches *)
EXTENDS Index, TLC, Json
CONSTANT N
VARIABLES docs, done
K == {"p", "q"}
V == {"0", "1"}
DocsP == {<<>>} \cup {<<[k |-> "p", v |-> a]>> : a \in V} \cup {<<[k |-> "q", v |-> a]>> : a \in V}
         \cup {<<[k |-> "p", v |-> a], [k |-> "q", v |-> b]>> : a \in V, b \in V}
Conds == {<<>>} \cup {<<[k |-> "p", v |-> a]>> : a \in V} \cup {<<[k |-> "q", v |-> a]>> : a \in V}
         \cup {<<[k |-> "p", v |-> a], [k |-> "q", v |-> b]>> : a \in V, b \in V}
Init == docs \in UNION {[1..n -> DocsP] : n \in 0..N} /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED docs /\ PrintT(ToJson([cls |-> "model", docs |-> docs]))
Inv == \A I \in SUBSET K : \A c \in Conds :
         /\ ToSet(Hits(docs, I, c)) = ByPostings(docs, I, c)
         /\ \A i \in 1..Len(c) : c[i].k \notin I => Hits(docs, I, c) = <<>>
         /\ DirOk(<<docs>>, I, c, [i \in 1..Len(Hits(docs, I, c)) |-> <<1, Hits(docs, I, c)[i]>>])
=============================================================================
