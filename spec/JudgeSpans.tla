---------------------------- MODULE JudgeSpans ----------------------------
(* C11: a recorded case is a text, a sequence of operations and the result  *)
(* of each; spans are numbered by the operation that made them.             *)
EXTENDS JudgeCases, TextSpans, SequencesExt

\* spans known after k operations: those made so far, in-place trims applied
RECURSIVE Walk(_, _, _, _)
Walk(cs, k, sp, bad) ==
  IF k > Len(cs.in.ops) THEN
    bad \cup (IF cs.out.text = cs.in.T THEN {} ELSE {"C11.text-changed"})
        \cup (IF \A i \in 1..Len(sp) : sp[i].b < 0 \/ (cs.out.final[i] = <<sp[i].b, sp[i].e>>) THEN {} ELSE {"C11.span-changed"})
  ELSE LET op == cs.in.ops[k]
           r == cs.out.res[k]
           usable == /\ (op.s = 0 \/ sp[op.s].b >= 0)
                     /\ (op.o = 0 \/ sp[op.o].b >= 0)
           good == IF usable THEN Agrees(cs.in.T, sp, op, r) ELSE TRUE
           new == IF usable /\ r.ok /\ op.op \in {"slice", "step", "explicit", "span_to", "trim", "trim_"}
                  THEN Span(r.b, r.e) ELSE Span(-1, -1)
           sp1 == IF usable /\ r.ok /\ op.op = "trim_" /\ op.s > 0 THEN [sp EXCEPT ![op.s] = new] ELSE sp
       IN Walk(cs, k + 1, Append(sp1, new), IF good THEN bad ELSE bad \cup {"C11." \o op.op})
SpanBad(cs) == Walk(cs, 1, <<>>, {})
=============================================================================
