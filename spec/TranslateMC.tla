---------------------------- MODULE TranslateMC ----------------------------
(* All mappings of a short text by at most two intervals and all spans: the *)
(* sweep over the boundaries computes the image.                            *)
EXTENDS Translate, TLC, Json, SequencesExt
CONSTANT P
VARIABLES maps, node, done
Ivs == {m \in [b : 0..P, e : 0..P, t : {0, 2, 5}] : m.b < m.e}
Maps == {<<>>} \cup {<<m>> : m \in Ivs} \cup {p \in Ivs \X Ivs : p[1].e <= p[2].b \/ p[2].e <= p[1].b}
Nodes == {n \in [b : 0..P, e : 0..P] : n.b < n.e}
Init == maps \in Maps /\ node \in Nodes /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<maps, node>> /\ PrintT(ToJson([cls |-> "model", maps |-> maps, node |-> node]))
\* events <<offset, order, interval>>; order -1 end, 0 start, 1 first character, 2 last character
Events == UNION {{<<maps[i].b, 0, i>>, <<maps[i].e, -1, i>>} : i \in 1..Len(maps)} \cup {<<node.b, 1, 0>>, <<node.e - 1, 2, 0>>}
Sorted == SetToSortSeq(Events, LAMBDA p, q : p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2]))
Sweep == FoldLeft(LAMBDA s, ev :
  CASE ev[2] = -1 -> [s EXCEPT !.open = 0]
    [] ev[2] = 0 -> [s EXCEPT !.open = ev[3]]
    [] OTHER -> IF s.open = 0 THEN [s EXCEPT !.bad = TRUE]
                ELSE LET x == maps[s.open].t + (ev[1] - maps[s.open].b) IN
                     IF ev[2] = 1 THEN [s EXCEPT !.b = x] ELSE [s EXCEPT !.e = x + 1],
  [open |-> 0, bad |-> FALSE, b |-> -1, e |-> -1], Sorted)
Inv == /\ Sweep.bad <=> (Holding(maps, node.b) = {} \/ Holding(maps, node.e - 1) = {})
       /\ (Mappable(maps, node) => [b |-> Sweep.b, e |-> Sweep.e] = Moved(maps, node))
       \* within one interval the length is kept
       /\ (Mappable(maps, node) /\ Holding(maps, node.b) = Holding(maps, node.e - 1)) =>
            Moved(maps, node).e - Moved(maps, node).b = node.e - node.b
=============================================================================
