----------------------------- MODULE JudgeLists -----------------------------
(* C26: real lists of nodes of several origins.                             *)
EXTENDS JudgeCases, Lists
\* val(x, f): the value of node x in field f
ListBad(cs) ==
  LET o == cs.out
      val(x, f) == LET h == {j \in 1..Len(o.vals[x]) : o.vals[x][j].f = f} IN IF h = {} THEN "-" ELSE o.vals[x][CHOOSE j \in h : TRUE].v
      col(s, f) == [k \in 1..Len(s) |-> val(s[k], f)]
      want(q) == IF q.kind = "slice" THEN Slice(o.list, q.ix[1], q.ix[2], q.ix[3]) ELSE Pick(o.list, q.ix)
      names(q) == {q.types[i].f : i \in 1..Len(q.types)}
  IN IF ~ListOk(o.origins, o.refused, o.types) THEN {"C26.joined"}
     ELSE IF o.refused THEN {}
     ELSE {y \in {
       IF o.ids = o.list THEN "" ELSE "C26.elements",
       IF ToSet(o.has) = FieldNames(o.origins) THEN "" ELSE "C26.contains",
       IF \A i \in 1..Len(o.parts) : LET q == o.parts[i] IN
             IF q.kind = "pick" /\ ~InRange(o.list, q.ix) THEN q.err
             ELSE ~q.err /\ q.ids = want(q) /\ q.first = (IF want(q) = <<>> THEN 0 ELSE want(q)[1])
                  /\ q.last = (IF want(q) = <<>> THEN 0 ELSE want(q)[Len(want(q))])
                  /\ ToSet(q.types) = ToSet(o.types)
                  /\ \A j \in 1..Len(q.cols) : q.cols[j].v = col(want(q), q.cols[j].f) /\ q.cols[j].l = col(want(q), q.cols[j].f)
          THEN "" ELSE "C26.parts" } : y # ""}
=============================================================================
