----------------------------- MODULE JudgeFrame -----------------------------
(* C15: writes and reads through the boundary framing.                      *)
EXTENDS JudgeCases, Boundary, SequencesExt

RECURSIVE Reads(_, _, _, _, _)
Reads(N, o, ops, res, k) ==
  IF k > Len(ops) THEN {}
  ELSE (IF ReadOk(N, o, ops[k], res[k]) THEN {} ELSE {"C15." \o ops[k].op}) \cup Reads(N, After(o, ops[k], res[k]), ops, res, k + 1)
FrameOf(B, ops) == FoldLeft(LAMBDA w, op : WOp(B, 4, w, op), W0, ops)
\* the writer of a collection declares the start of the first block and of each next one
RECURSIVE Pieces(_, _)
Pieces(ends, last) == IF ends = <<>> THEN <<>> ELSE <<Head(ends) - last, -1>> \o Pieces(Tail(ends), Head(ends))
FrameBad(cs) ==
  LET o == cs.out IN
  CASE o.kind = "frame" ->
        LET w == FrameOf(o.B, o.ops) IN
        (IF o.first /\ o.len = Framed(o.B, 4, w.n) /\ o.n = w.n /\ o.same THEN {} ELSE {"C15.payload"})
        \cup (IF o.marks = w.marks THEN {} ELSE {"C15.markers"})
        \cup (IF o.refuses THEN {} ELSE {"C15.range"})
        \cup Reads(o.n, 0, o.rops, o.res, 1)
    [] o.kind = "framed" ->
        (IF o.a = o.b /\ [i \in 1..Len(o.ids) |-> o.a[i][1]] = o.ids THEN {} ELSE {"C15.collection"})
        \cup (IF o.marks = FrameOf(o.B, Pieces(o.pieces, 0)).marks THEN {} ELSE {"C15.collection-markers"})
=============================================================================
