------------------------------ MODULE Refuse ------------------------------
(* What a reader may say about data that is not, or not all of, a document. *)
(* An encoding is a sequence of sections; a reader wants some of them and   *)
(* passes over the others by their recorded length.                         *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt
\* outcome of one request: "same" as the original gives, "error", or "other"
ReadOk(cut, total, whole, outcome) ==
  IF cut >= total THEN outcome = "same"
  ELSE IF whole THEN outcome = "error"
  ELSE outcome \in {"same", "error"}
\* writing: every item is a document (its number), something that has to be refused (0), or an encoded document
\* that is not complete (-1: to be refused or kept); -2 is a flush, not an item
Kept(ops, refused) == LET at == SelectSeq([i \in 1..Len(ops) |-> i], LAMBDA i : ops[i] # -2 /\ ~refused[i]) IN [i \in 1..Len(at) |-> ops[at[i]]]
\* lengths of the blocks: full, or ended by a flush
Blocks(ops, refused, limit) ==
  LET step(a, i) == IF ops[i] = -2 THEN IF a.cur = 0 THEN a ELSE [done |-> Append(a.done, a.cur), cur |-> 0]
                    ELSE IF refused[i] THEN a
                    ELSE IF a.cur + 1 = limit THEN [done |-> Append(a.done, limit), cur |-> 0]
                    ELSE [a EXCEPT !.cur = @ + 1]
      r == FoldLeft(step, [done |-> <<>>, cur |-> 0], [i \in 1..Len(ops) |-> i])
  IN IF r.cur = 0 THEN r.done ELSE Append(r.done, r.cur)
Before(s) == LET at == SelectSeq([i \in 1..Len(s) |-> i], LAMBDA i : s[i] = -1) IN IF at = <<>> THEN s ELSE SubSeq(s, 1, at[1] - 1)
\* back: what a reader of encoded documents gives (-1 if it cannot be decoded); docs, failed: what a reader of documents gives until it fails
WriteOk(ops, refused, back, docs, failed) ==
  LET kept == Kept(ops, refused) IN
  /\ Len(refused) = Len(ops)
  /\ \A i \in 1..Len(ops) : ops[i] >= 0 => refused[i] = (ops[i] = 0)
  /\ back = kept
  /\ docs = Before(kept) /\ failed = (docs # kept)
=============================================================================
