----------------------------- MODULE JudgeQuery -----------------------------
(* C22: histories of queries, updates and edits.                            *)
EXTENDS JudgeCases, Query
\* the node records of a snapshot for a sequence of node numbers
Recs(snap, ids) == [i \in 1..Len(ids) |-> [i |-> snap.idx[ids[i]], v |-> snap.v[ids[i]], id |-> ids[i]]]
Ids(recs) == [i \in 1..Len(recs) |-> recs[i].id]
\* queries: [src, p, res, live]; src 0 the layer, -1 a fixed list, > 0 another query
Source(snap, Q, q) == IF q.src = 0 THEN snap.order ELSE IF q.src < 0 THEN q.list ELSE Q[q.src].res
Fixed(Q, q) == q.src <= 0 \/ Q[q.src].live
RECURSIVE Walk(_, _, _, _)
Walk(o, k, Q, bad) ==
  IF k > Len(o.ev) THEN bad
  ELSE LET e == o.ev[k]
           snap == o.snaps[e.snap] IN
    CASE e.op = "make" ->
           LET q0 == [src |-> e.src, list |-> e.list, p |-> e.p]
               src == Recs(snap, Source(snap, Q, q0))
               def == Fixed(Q, q0) /\ Defined(e.p, src)
               q == [src |-> e.src, list |-> e.list, p |-> e.p, live |-> def, res |-> IF def THEN Ids(Chosen(e.p, src)) ELSE <<>>]
           IN Walk(o, k + 1, Append(Q, q), bad \cup (IF def /\ (~e.ok \/ e.obs # q.res) THEN {"C22.query"} ELSE {}))
      [] e.op = "update" ->
           LET q0 == Q[e.q]
               src == Recs(snap, Source(snap, Q, q0))
               def == Fixed(Q, q0) /\ q0.live /\ Defined(q0.p, src)
               q == [q0 EXCEPT !.live = def, !.res = IF def THEN Ids(Chosen(q0.p, src)) ELSE <<>>]
           IN Walk(o, k + 1, [Q EXCEPT ![e.q] = q], bad \cup (IF def /\ (~e.ok \/ e.obs # q.res) THEN {"C22.update"} ELSE {}))
      [] e.op = "look" ->      \* still the snapshot, and every view of it
           Walk(o, k + 1, Q, bad \cup (IF Q[e.q].live /\ (~e.ok \/ e.obs # Q[e.q].res) THEN {"C22.snapshot"} ELSE {})
                                 \cup (IF Q[e.q].live /\ ~e.views THEN {"C22.views"} ELSE {}))
      [] OTHER -> Walk(o, k + 1, Q, bad)
QueryBad(cs) == Walk(cs.out, 1, <<>>, {}) \cup (IF cs.out.same THEN {} ELSE {"C22.changed"})
=============================================================================
