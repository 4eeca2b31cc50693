------------------------------- MODULE SeqMC -------------------------------
(* All short texts, ranges and token sequences: the first candidate rule    *)
(* gives spans with the stated properties.                                  *)
EXTENDS SeqSpans, TLC, Json, SequencesExt
CONSTANTS N, M
VARIABLES T, lo, hi, toks, k, done
vars == <<T, lo, hi, toks, k, done>>
Tokens == {<<>>, <<1>>, <<2>>, <<1, 2>>, <<2, 1>>}
Init == /\ T \in [1..N -> 1..2] /\ lo \in 0..1 /\ hi \in (N - 1)..N /\ k \in 0..2 /\ done = FALSE
        /\ toks \in UNION {[1..m -> Tokens] : m \in 0..M}
Next == ~done /\ done' = TRUE /\ UNCHANGED <<T, lo, hi, toks, k>>
        /\ PrintT(ToJson([cls |-> "model", T |-> T, lo |-> lo, hi |-> hi, toks |-> toks, k |-> k]))
RECURSIVE Place(_, _, _)
Place(i, p, out) ==
  IF i > Len(toks) THEN out
  ELSE LET loc == Find(T, toks[i], p, hi) IN
       IF loc < 0 THEN Place(i + 1, p, Append(out, [b |-> p, e |-> p]))
       ELSE LET near == {j \in (i + 1)..Min2(i + k, Len(toks)) : Find(T, toks[j], p, hi) >= 0 /\ Find(T, toks[j], p, hi) < loc} IN
            IF near = {} THEN Place(i + 1, loc + Len(toks[i]), Append(out, [b |-> loc, e |-> loc + Len(toks[i])]))
            ELSE LET j == CHOOSE x \in near : \A y \in near : x <= y
                     q == Find(T, toks[j], p, hi) IN
                 Place(j + 1, q + Len(toks[j]), out \o [m \in 1..(j - i) |-> [b |-> p, e |-> p]] \o <<[b |-> q, e |-> q + Len(toks[j])]>>)
Inv == LET s == Place(1, lo, <<>>) IN SeqOk(T, lo, hi, toks, k, s) /\ Ordered(T, lo, hi, toks, s)
=============================================================================
