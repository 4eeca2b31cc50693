------------------------------ MODULE ListsMC ------------------------------
(* Merging the types of the origins one by one, in any order, gives the     *)
(* join of them all, or a refusal in every order.                           *)
EXTENDS Lists, TLC, Json
CONSTANT N
Types == Numeric \cup {"string", "span_text", "node_a", "-"}      \* "-": the origin has no such field
VARIABLES ts, todo, acc
vars == <<ts, todo, acc>>
Init == ts \in [1..N -> Types] /\ todo = {ts[i] : i \in 1..N} \ {"-"} /\ acc = ""
\* one step of the merge; a refusal is final
Up(a, t) == IF a = "" THEN t ELSE IF a = "refused" THEN a
            ELSE IF a = t THEN a ELSE IF a \in Numeric /\ t \in Numeric THEN IF Rank(a) >= Rank(t) THEN a ELSE t ELSE "refused"
Next == \E t \in todo : acc' = Up(acc, t) /\ todo' = todo \ {t} /\ UNCHANGED ts
        /\ (Cardinality(todo) # 1 \/ PrintT(ToJson([cls |-> "join/model", ts |-> ts])))
Os == [i \in 1..N |-> IF ts[i] = "-" THEN <<>> ELSE <<[f |-> "f", t |-> ts[i]]>>]
SliceInv ==   \* slices: by walking
  \A n \in 0..4 : \A a, b \in -6..6 : \A st \in {-3, -2, -1, 1, 2, 3} :
    LET s == [k \in 1..n |-> k]
        sel == Slice(s, a, b, st)
    IN /\ \A k \in 1..Len(sel) : sel[k] \in 1..n
       /\ \A k \in 1..Len(sel) - 1 : sel[k + 1] = sel[k] + st
       /\ (st = 1 /\ a >= 0 /\ b >= 0) => ToSet(sel) = {k \in 1..n : k > a /\ k <= b}
       /\ Len(sel) > 0 \/ st # 1 \/ a < 0 \/ b < 0 \/ a >= b \/ a >= n
ASSUME SliceInv
Inv == (todo = {} /\ acc # "") =>
  /\ (acc = "refused") = Refused(Os)
  /\ acc # "refused" => acc = Join(TypesOf(Os, "f")) /\ ListOk(Os, FALSE, <<[f |-> "f", t |-> acc]>>)
=============================================================================
