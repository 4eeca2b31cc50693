----------------------------- MODULE JudgeAlgo -----------------------------
(* C17-C21: results of the real algorithms.                                 *)
EXTENDS JudgeCases, SequencesExt, FiniteSets, Integers
G == INSTANCE Graph
S == INSTANCE GroupBySpan
D == INSTANCE Dominant
Q == INSTANCE SeqSpans
T == INSTANCE Translate

GraphBad(o) ==
  LET kids == [i \in 1..Len(o.nodes) |-> G!Children(o.nodes[i], o.fields)]
      keep == IF o.all THEN 1..Len(o.nodes) ELSE ToSet(o.keep) IN
  (IF \A i \in 1..Len(o.nodes) : o.kids[i] = kids[i] THEN {} ELSE {"C17.children"})
  \cup (IF G!BfsOk(kids, o.start, keep, o.bfs) THEN {} ELSE {"C17.bfs"})
  \cup (IF G!DfsOk(kids, o.start, keep, o.dfs) THEN {} ELSE {"C17.dfs"})
  \cup (IF G!LeavesOk(kids, o.start, keep, o.leaves) THEN {} ELSE {"C17.leaves"})
  \cup (IF o.same THEN {} ELSE {"C17.changed"})
  \cup (IF o.refused THEN {} ELSE {"C17.accepted"})
GroupBad(o) ==
  UNION {IF S!GroupsOk(o.groups, o.layers, o.runs[i].resolution, o.runs[i].empty, o.runs[i].res) THEN {}
         ELSE {"C18." \o o.runs[i].resolution} : i \in 1..Len(o.runs)}
  \cup (IF o.same THEN {} ELSE {"C18.changed"})
DomBad(o) ==
  (IF D!DominantOk(o.segs, o.out) THEN {} ELSE {"C19.segments"})
  \cup (IF D!DominantOk(o.segs, o.nodes) THEN {} ELSE {"C19.nodes"})
  \cup (IF o.same THEN {} ELSE {"C19.changed"})
SeqBad(o) ==
  (IF Q!SeqOk(o.T, o.lo, o.hi, o.toks, o.k, o.spans) THEN {} ELSE {"C20.located"})
  \cup (IF Q!Ordered(o.T, o.lo, o.hi, o.toks, o.spans) THEN {} ELSE {"C20.ordered"})
  \cup (IF o.same THEN {} ELSE {"C20.changed"})
TransBad(o) ==
  (IF T!TranslateOk(o.maps, o.nodes, o.refused, o.after) THEN {} ELSE {"C21.spans"})
  \cup (IF o.same THEN {} ELSE {"C21.changed"})
AlgoBad(cs) == CASE cs.out.kind = "graph" -> GraphBad(cs.out)
                 [] cs.out.kind = "group" -> GroupBad(cs.out)
                 [] cs.out.kind = "dominant" -> DomBad(cs.out)
                 [] cs.out.kind = "seq" -> SeqBad(cs.out)
                 [] cs.out.kind = "translate" -> TransBad(cs.out)
=============================================================================
