------------------------------ MODULE SeqSpans ------------------------------
(* Locating a token sequence in the range lo..hi of a text (code points).   *)
(* Offsets are those of the text, spans [b, e].                             *)
EXTENDS Integers, Sequences, FiniteSets
Matches(T, tok, p, hi) == p + Len(tok) <= hi /\ SubSeq(T, p + 1, p + Len(tok)) = tok
\* first occurrence at or after p, -1 if there is none
Find(T, tok, p, hi) ==
  LET at == {q \in p..(hi - Len(tok)) : Matches(T, tok, q, hi)} IN
  IF at = {} THEN -1 ELSE CHOOSE q \in at : \A r \in at : q <= r
Min2(a, b) == IF a < b THEN a ELSE b
Skipped(spans, i, j, p) == \A m \in i..(j - 1) : spans[m].b = p /\ spans[m].e = p
Located(spans, i, at, tok) == spans[i].b = at /\ spans[i].e = at + Len(tok)
\* spans from token i on, the last match ending at p
RECURSIVE Follows(_, _, _, _, _, _, _)
Follows(T, hi, toks, k, spans, i, p) ==
  IF i > Len(toks) THEN TRUE
  ELSE LET loc == Find(T, toks[i], p, hi) IN
       IF loc < 0 THEN Skipped(spans, i, i + 1, p) /\ Follows(T, hi, toks, k, spans, i + 1, p)
       ELSE LET near == {j \in (i + 1)..Min2(i + k, Len(toks)) :
                           Find(T, toks[j], p, hi) >= 0 /\ Find(T, toks[j], p, hi) < loc} IN
            IF near = {} THEN Located(spans, i, loc, toks[i]) /\ Follows(T, hi, toks, k, spans, i + 1, loc + Len(toks[i]))
            ELSE \E j \in near : LET q == Find(T, toks[j], p, hi) IN
                   /\ Skipped(spans, i, j, p)
                   /\ Located(spans, j, q, toks[j])
                   /\ Follows(T, hi, toks, k, spans, j + 1, q + Len(toks[j]))
SeqOk(T, lo, hi, toks, k, spans) == Len(spans) = Len(toks) /\ Follows(T, hi, toks, k, spans, 1, lo)
\* what follows from it
Ordered(T, lo, hi, toks, spans) ==
  /\ \A i \in 1..Len(spans) : lo <= spans[i].b /\ spans[i].b <= spans[i].e /\ spans[i].e <= hi
  /\ \A i \in 1..(Len(spans) - 1) : spans[i].e <= spans[i + 1].b
  /\ \A i \in 1..Len(spans) : spans[i].b < spans[i].e => i <= Len(toks) /\ SubSeq(T, spans[i].b + 1, spans[i].e) = toks[i]
=============================================================================
