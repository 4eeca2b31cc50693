---------------------------- MODULE GroupBySpan ----------------------------
(* Grouping nodes by the spans of group nodes. A node x is [b, e], the      *)
(* offsets of its span, b = -1 without span. A span without length occupies *)
(* the point at its offset: it is in the spans around it and in those that  *)
(* begin at it, not in those that end there.                                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
HasSpan(x) == x.b >= 0
Lo(x) == 2 * x.b
Hi(x) == IF x.b = x.e THEN 2 * x.b + 1 ELSE 2 * x.e
Meets(g, n) == Lo(g) < Hi(n) /\ Lo(n) < Hi(g)
Inside(g, n) == g.b <= n.b /\ n.e <= g.e
In(g, n, resolution) == HasSpan(g) /\ HasSpan(n) /\ Meets(g, n) /\ (resolution = "cover" => Inside(g, n))
\* layers: sequence of sequences of nodes; result: sequence of [g, l] with g the
\* number of the group and l, per layer, the numbers of the nodes in it
Members(g, layer, resolution) == {k \in 1..Len(layer) : In(g, layer[k], resolution)}
GroupsOk(groups, layers, resolution, empty, res) ==
  LET Wanted == {g \in 1..Len(groups) : HasSpan(groups[g]) /\
                   (empty \/ \E j \in 1..Len(layers) : Members(groups[g], layers[j], resolution) # {})}
  IN /\ {res[i].g : i \in 1..Len(res)} = Wanted
     /\ Len(res) = Cardinality(Wanted)
     /\ \A i \in 1..(Len(res) - 1) : groups[res[i].g].b <= groups[res[i + 1].g].b
     /\ \A i \in 1..Len(res) :
          /\ Len(res[i].l) = Len(layers)
          /\ \A j \in 1..Len(layers) :
               /\ ToSet(res[i].l[j]) = Members(groups[res[i].g], layers[j], resolution)
               /\ Len(res[i].l[j]) = Cardinality(ToSet(res[i].l[j]))
=============================================================================
