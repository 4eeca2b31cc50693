----------------------------- MODULE JudgeColl -----------------------------
(* C12-C14: writer and reader histories of real collection files.           *)
EXTENDS JudgeCases, Collection, FiniteSetsExt

WriteBad(o) ==
  LET w == Flush(Written(o.ops, o.cap)) IN
  (IF o.kind = "tar" THEN {}
   ELSE (IF o.file.ok /\ o.file.codec = o.codec /\ o.file.cap = o.cap /\ o.file.adv = FALSE THEN {} ELSE {"C12.layout"})
        \cup (IF o.file.blocks = w.blocks THEN {} ELSE {"C12.blocks"}))
  \cup (IF \A i \in 1..Len(o.reads) : Tail(o.reads[i]) = Docs(o.ops) THEN {} ELSE {"C12.read"})
  \cup (IF o.refused THEN {} ELSE {"C12.accepted"})

RECURSIVE Walk(_, _, _, _, _)
Walk(F, S, ops, res, k) ==
  IF k > Len(ops) THEN {}
  ELSE LET T == Step(F, S, ops[k], res[k]) IN
       IF T = {} THEN {"C13." \o ops[k].op} ELSE Walk(F, T, ops, res, k + 1)
ReadBad(o) ==
  Walk(o.F, Open, o.rops, o.res, 1)
  \cup (IF RefsOk({o.refs[i] : i \in 1..Len(o.refs)}) THEN {} ELSE {"C13.references"})
  \cup (IF o.all THEN {} ELSE {"C13.missing"})

CutBad(o) ==
  LET w == Written(o.ops, o.cap)
      whole == Flush(w) IN
  (IF o.file.ok /\ o.file.blocks = whole.blocks THEN {} ELSE {"C14.file"})
  \* what was flushed when writing stopped
  \cup (IF /\ IsPrefix(w.blocks, o.frozen.blocks) /\ IsPrefix(All(o.frozen.blocks), Docs(o.ops))
           /\ \A i \in 1..Len(o.live) : \/ Tail(o.live[i]) = All(o.frozen.blocks)
                                        \/ o.frozen.head = 0 /\ Tail(o.live[i]) \in {<<>>, <<-3>>}
        THEN {} ELSE {"C14.flushed"})
  \cup (IF \A i \in 1..Len(o.cuts) :
              LET q == o.cuts[i] IN
              IF q.k < o.file.head THEN q.ids = <<>>
              ELSE ~q.err /\ q.ids = Recovered(whole.blocks, o.file.ends, q.k)
        THEN {} ELSE {"C14.cut"})

\* a file of any blocks, also empty ones
ForeignBad(o) == IF \A i \in 1..Len(o.reads) : Tail(o.reads[i]) = All(o.blocks) THEN {} ELSE {"C12.foreign"}

CutForeignBad(o) ==
  (IF o.file.ok /\ o.file.blocks = o.blocks THEN {} ELSE {"C14.file"})
  \cup (IF \A i \in 1..Len(o.cuts) :
              LET q == o.cuts[i] IN
              IF q.k < o.file.head THEN q.ids = <<>>
              ELSE ~q.err /\ q.ids = Recovered(o.blocks, o.file.ends, q.k)
        THEN {} ELSE {"C14.cut"})

CollBad(cs) == CASE cs.out.kind \in {"write", "tar"} -> WriteBad(cs.out)
                 [] cs.out.kind = "foreign" -> ForeignBad(cs.out)
                 [] cs.out.kind = "cutforeign" -> CutForeignBad(cs.out)
                 [] cs.out.kind = "read" -> ReadBad(cs.out)
                 [] cs.out.kind = "cut" -> CutBad(cs.out)
=============================================================================
