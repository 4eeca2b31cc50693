----------------------------- MODULE DominantMC -----------------------------
(* The sweep that keeps one open segment satisfies the rule, for all lists  *)
(* of at most N segments over positions 0..P.                               *)
EXTENDS Dominant, TLC, Json
CONSTANTS N, P
VARIABLES S, done
Segs == {s \in [b : 0..P, e : 0..P] : s.b <= s.e}
Init == S \in UNION {[1..n -> Segs] : n \in 0..N} /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED S /\ PrintT(ToJson([cls |-> "model", segs |-> S]))
\* events <<position, end?, number>>
Events == UNION {{<<S[i].b, 0, i>>, <<Stop(S[i]) - 1, 1, i>>} : i \in 1..Len(S)}
Sorted == SetToSortSeq(Events, LAMBDA p, q : p[1] < q[1] \/ (p[1] = q[1] /\ (p[2] < q[2] \/ (p[2] = q[2] /\ p[3] < q[3]))))
Sweep == FoldLeft(LAMBDA s, ev :
  IF ev[2] = 0 THEN IF s.open = 0 \/ Long(S[s.open]) <= Long(S[ev[3]]) THEN [s EXCEPT !.open = ev[3]] ELSE s
  ELSE IF s.open = ev[3] THEN [s EXCEPT !.open = 0, !.out = Append(@, ev[3])] ELSE s,
  [open |-> 0, out |-> <<>>], Sorted)
Inv == DominantOk(S, Sweep.out)
=============================================================================
