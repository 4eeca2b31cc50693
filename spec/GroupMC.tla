------------------------------ MODULE GroupMC ------------------------------
(* The sweep over the span boundaries computes the grouping, for all        *)
(* placements of two groups and two nodes (in one layer or two).            *)
EXTENDS GroupBySpan, TLC, Json
CONSTANT P
VARIABLES groups, nodes, two, done
vars == <<groups, nodes, two, done>>
Spans == {[b |-> -1, e |-> -1]} \cup {s \in [b : 0..P, e : 0..P] : s.b <= s.e}
Init == groups \in [1..2 -> Spans] /\ nodes \in [1..2 -> Spans] /\ two \in BOOLEAN /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<groups, nodes, two>>
        /\ PrintT(ToJson([cls |-> "model", groups |-> groups, nodes |-> nodes, two |-> two]))
\* events <<offset, order, group?, number, start?>>
Ev(x, g, k) == IF ~HasSpan(x) THEN {}
               ELSE IF x.b = x.e THEN {<<x.b, 3, g, k, TRUE>>, <<x.b, 4, g, k, FALSE>>}
               ELSE {<<x.b, IF g THEN 0 ELSE 1, g, k, TRUE>>, <<x.e, IF g THEN -2 ELSE -1, g, k, FALSE>>}
Events == UNION {Ev(groups[k], TRUE, k) : k \in 1..2} \cup UNION {Ev(nodes[k], FALSE, k) : k \in 1..2}
Sorted == SetToSortSeq(Events, LAMBDA p, q : p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2]))
Sweep == FoldLeft(LAMBDA s, ev :
           IF ev[5] THEN IF ev[3] THEN [s EXCEPT !.og = @ \cup {ev[4]}, !.hit = @ \cup {<<ev[4], n>> : n \in s.on}]
                         ELSE [s EXCEPT !.on = @ \cup {ev[4]}, !.hit = @ \cup {<<g, ev[4]>> : g \in s.og}]
           ELSE IF ev[3] THEN [s EXCEPT !.og = @ \ {ev[4]}] ELSE [s EXCEPT !.on = @ \ {ev[4]}],
         [og |-> {}, on |-> {}, hit |-> {}], Sorted)
Inv == /\ Sweep.hit = {p \in (1..2) \X (1..2) : In(groups[p[1]], nodes[p[2]], "intersect")}
       \* spans with length: the interval arithmetic of text spans
       /\ \A g, n \in 1..2 : (groups[g].b < groups[g].e /\ nodes[n].b < nodes[n].e /\ HasSpan(groups[g]) /\ HasSpan(nodes[n]))
            => (In(groups[g], nodes[n], "intersect") <=> groups[g].b < nodes[n].e /\ nodes[n].b < groups[g].e)
       /\ \A g, n \in 1..2 : In(groups[g], nodes[n], "cover") => In(groups[g], nodes[n], "intersect")
=============================================================================
