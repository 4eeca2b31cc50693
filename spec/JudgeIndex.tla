----------------------------- MODULE JudgeIndex -----------------------------
(* C16: searches of real indices.                                           *)
EXTENDS JudgeCases, Index
IndexBad(cs) ==
  LET o == cs.out IN
  IF \A i \in 1..Len(o.searches) : DirOk(o.files, ToSet(o.indexed), o.searches[i].conds, o.searches[i].found) THEN {} ELSE {"C16.search"}
=============================================================================
