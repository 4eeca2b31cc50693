------------------------------ MODULE Dominant ------------------------------
(* Resolving overlaps by the dominant right rule. A segment is [b, e]; a    *)
(* segment without length occupies the position at its offset.              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Stop(s) == IF s.b = s.e THEN s.e + 1 ELSE s.e
Overlap(s, t) == s.b < Stop(t) /\ t.b < Stop(s)
Long(s) == s.e - s.b
\* the j-th segment dominates the i-th: longer, then to the right, then given later
Dominates(S, j, i) == \/ Long(S[j]) > Long(S[i])
                      \/ Long(S[j]) = Long(S[i]) /\ S[j].b > S[i].b
                      \/ Long(S[j]) = Long(S[i]) /\ S[j].b = S[i].b /\ j > i
DominantOk(S, out) ==
  LET Kept == ToSet(out)  All == 1..Len(S) IN
  /\ Kept \subseteq All /\ Cardinality(Kept) = Len(out)
  /\ \A k \in 1..(Len(out) - 1) : S[out[k]].b < S[out[k + 1]].b
  /\ \A i, j \in Kept : i # j => ~Overlap(S[i], S[j])
  /\ \A i \in All : (\A j \in All \ {i} : ~Overlap(S[i], S[j])) => i \in Kept
  \* same range or same start: only the dominant one can remain
  /\ \A i \in Kept : \A j \in All : (S[j].b = S[i].b /\ j # i) => ~Dominates(S, j, i)
  /\ \A i \in All \ Kept : \E j \in All : j # i /\ Overlap(S[i], S[j]) /\ Dominates(S, j, i)
=============================================================================
