----------------------------- MODULE Collection -----------------------------
(* Collections of documents: the writer groups documents into blocks, the   *)
(* reader walks over the blocks, fetches by reference and seeks.            *)
(* Documents are numbered; a file is its sequence of blocks.                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

\* --- writer: w = [blocks, cur]
Empty == [blocks |-> <<>>, cur |-> <<>>]
Flush(w) == IF w.cur = <<>> THEN w ELSE [blocks |-> Append(w.blocks, w.cur), cur |-> <<>>]
Put(w, d, cap) == LET x == [w EXCEPT !.cur = Append(@, d)] IN IF Len(x.cur) = cap THEN Flush(x) ELSE x
\* operations: a number d > 0 writes document d, 0 flushes
Apply(w, op, cap) == IF op = 0 THEN Flush(w) ELSE Put(w, op, cap)
Written(ops, cap) == FoldLeft(LAMBDA w, op : Apply(w, op, cap), Empty, ops)
Docs(ops) == SelectSeq(ops, LAMBDA x : x > 0)
All(blocks) == FlattenSeq(blocks)

\* --- reader over F, a sequence of block sizes; documents numbered 1.. in file order
RECURSIVE Before(_, _)
Before(F, b) == IF b <= 1 THEN 0 ELSE F[b - 1] + Before(F, b - 1)    \* documents before block b
BlockOf(F, g) == CHOOSE b \in 1..Len(F) : Before(F, b) < g /\ g <= Before(F, b) + F[b]
DocsOf(F, b) == [i \in 1..F[b] |-> Before(F, b) + i]
\* state: b block being read (0: none), g last document delivered from it, n next block
\* to read from the file. Sets of states: what follows a block read in between
\* is not specified.
Open == {[b |-> 0, g |-> 0, n |-> 1]}
End == 0
NextDoc(F, s) ==
  IF s.b > 0 /\ s.g < Before(F, s.b) + F[s.b] THEN s.g + 1
  ELSE IF s.n <= Len(F) THEN Before(F, s.n) + 1 ELSE End
AfterNext(F, s) ==
  IF s.b > 0 /\ s.g < Before(F, s.b) + F[s.b] THEN [s EXCEPT !.g = @ + 1]
  ELSE IF s.n <= Len(F) THEN [b |-> s.n, g |-> Before(F, s.n) + 1, n |-> s.n + 1]
  ELSE [b |-> 0, g |-> 0, n |-> s.n]
At(F, g) == LET b == BlockOf(F, g) IN [b |-> b, g |-> g, n |-> b + 1]
\* reading a whole block: the next one of the file; the rest of the document
\* sequence is not specified
Block(s) == s.n
AfterBlock(F, s) ==
  IF s.n > Len(F) THEN {s, [s EXCEPT !.b = 0, !.g = 0]}
  ELSE {[s EXCEPT !.n = @ + 1], [b |-> 0, g |-> 0, n |-> s.n + 1], [b |-> s.n, g |-> Before(F, s.n), n |-> s.n + 1]}

\* op [op, g, b], r the observed result [ok, g, b, docs]
Step(F, S, op, r) ==
  CASE op.op = "next" -> {AfterNext(F, s) : s \in {s \in S : NextDoc(F, s) = r.g /\ r.ok}}
    [] op.op = "get" -> IF r.ok /\ r.g = op.g THEN {At(F, op.g)} ELSE {}
    [] op.op = "seek" -> IF r.ok THEN {[b |-> 0, g |-> 0, n |-> op.b]} ELSE {}
    [] op.op = "readblock" -> UNION {AfterBlock(F, s) : s \in {s \in S : r.ok /\ IF Block(s) <= Len(F)
                                                                         THEN r.docs = DocsOf(F, Block(s)) ELSE r.docs = <<>>}}
    [] op.op = "blockget" -> IF r.ok /\ r.g = op.g THEN S ELSE {}        \* within a block read before
    [] op.op = "blockdocs" -> IF r.ok /\ r.docs = DocsOf(F, op.b) THEN S ELSE {}
    [] OTHER -> {}

\* References: one per document, distinct, increasing in file order.
Less(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
RefsOk(refs) ==     \* set of <<g, <<file position, block position>>>>
  \A p \in refs, q \in refs : (p[1] = q[1] => p[2] = q[2]) /\ (p[1] < q[1] => Less(p[2], q[2]))

\* --- interruption: blocks with their end in the file; what remains of k bytes
Complete(ends, k) == Cardinality({b \in 1..Len(ends) : ends[b] <= k})
Recovered(blocks, ends, k) == All(SubSeq(blocks, 1, Complete(ends, k)))
=============================================================================
