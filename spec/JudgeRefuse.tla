---------------------------- MODULE JudgeRefuse ----------------------------
(* C27: readers and writers of the real code on data that is no document.   *)
EXTENDS JudgeCases, Refuse
RefuseBad(cs) ==
  LET o == cs.out IN
  {x \in {
    IF \A i \in 1..Len(o.reads) : LET q == o.reads[i] IN ReadOk(o.cut, o.total, q.whole, q.r) THEN "" ELSE "C27.incomplete",
    IF \A i \in 1..Len(o.foreign) : o.foreign[i].r = "error" THEN "" ELSE "C27.foreign",
    IF \A i \in 1..Len(o.writes) : LET q == o.writes[i] IN WriteOk(q.ops, q.refused, q.back, q.docs, q.failed) THEN "" ELSE "C27.written",
    IF \A i \in 1..Len(o.writes) : LET q == o.writes[i] IN q.limit = 0 \/ q.blocks = Blocks(q.ops, q.refused, q.limit) THEN "" ELSE "C27.blocks"
  } : x # ""}
=============================================================================
