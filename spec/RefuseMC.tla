----------------------------- MODULE RefuseMC -----------------------------
(* A reader over every prefix of every encoding of N sections: the first    *)
(* byte of a section holds its length; a wanted section is read, another is *)
(* passed over without looking whether its bytes are there.                 *)
EXTENDS Refuse, TLC, Json
CONSTANTS N, M                 \* sections, largest section
VARIABLES sz, cut, want, at, pos, got, st
vars == <<sz, cut, want, at, pos, got, st>>
Total == FoldLeft(LAMBDA a, b : a + b, 0, sz)
End(i) == FoldLeft(LAMBDA a, b : a + b, 0, SubSeq(sz, 1, i))
Init == /\ sz \in [1..N -> 1..M] /\ cut \in 0..(N * M) /\ cut <= Total
        /\ want \in SUBSET (1..N) /\ want # {} /\ at = 1 /\ pos = 0 /\ got = {} /\ st = "read"
Goal == CHOOSE i \in want : \A j \in want : j <= i
Step == /\ st = "read" /\ at <= Goal
        /\ IF pos + 1 > cut \/ (at \in want /\ pos + sz[at] > cut) THEN st' = "error" /\ UNCHANGED <<at, pos, got>>
           ELSE /\ pos' = pos + sz[at] /\ at' = at + 1 /\ st' = st
                /\ got' = IF at \in want THEN got \cup {at} ELSE got
        /\ UNCHANGED <<sz, cut, want>>
Done == /\ st = "read" /\ at > Goal /\ st' = "same" /\ UNCHANGED <<sz, cut, want, at, pos, got>>
Emit == /\ st \in {"same", "error"} /\ st' = "done"
        /\ (\A i \in 1..N : sz[i] = M) => PrintT(ToJson([n |-> N, size |-> M, cut |-> cut, want |-> SetToSeq(want)]))
        /\ UNCHANGED <<sz, cut, want, at, pos, got>>
Next == Step \/ Done \/ Emit
Inv == st \in {"same", "error"} =>
  /\ ReadOk(cut, Total, want = 1..N, st)
  /\ st = "same" => (got = want /\ \A i \in want : End(i) <= cut)     \* no section is delivered of which bytes are missing
  /\ (\A i \in 1..Goal : End(i) <= cut) => st = "same"                  \* and what is there is delivered
=============================================================================
