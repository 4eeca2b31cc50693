----------------------------- MODULE Translate -----------------------------
(* Moving spans over an extracted text to the original by mapping intervals *)
(* [b, e, t]: source offsets b..e, target offset t of b (same length).      *)
EXTENDS Integers, Sequences, FiniteSets
Holding(maps, p) == {i \in 1..Len(maps) : maps[i].b <= p /\ p < maps[i].e}
Image(maps, p) == LET i == CHOOSE i \in Holding(maps, p) : TRUE IN maps[i].t + (p - maps[i].b)
Mappable(maps, s) == /\ Holding(maps, s.b) # {} /\ Holding(maps, s.e - 1) # {}
                     /\ Image(maps, s.b) <= Image(maps, s.e - 1) + 1
Moved(maps, s) == [b |-> Image(maps, s.b), e |-> Image(maps, s.e - 1) + 1]
\* nodes: [b, e, tb, te], tb = -1 without target span; after: their target spans
TranslateOk(maps, nodes, refused, after) ==
  LET Todo == {i \in 1..Len(nodes) : nodes[i].tb < 0}
      Bad == \E i \in Todo : ~Mappable(maps, nodes[i]) IN
  /\ refused = Bad
  /\ \A i \in 1..Len(nodes) :
       IF i \notin Todo THEN after[i] = [b |-> nodes[i].tb, e |-> nodes[i].te]
       ELSE Bad \/ after[i] = Moved(maps, nodes[i])
=============================================================================
