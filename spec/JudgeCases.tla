---------------------------- MODULE JudgeCases ----------------------------
(* Shared driver of the case judges: every recorded case (one line of the   *)
(* file named by the environment variable CASES) is evaluated exactly once, *)
(* spread over SHARDS chains of states so that all workers are used.        *)
EXTENDS Naturals, Sequences, TLC, TLCExt, Json, IOUtils
CONSTANT SHARDS
CONSTANT Bad(_)          \* the violated clauses (strings) of one case
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLE c
JInit == c \in 1..SHARDS
JNext == /\ c <= Len(Cases)
         /\ \A b \in Bad(Cases[c]) : PrintT(<<"BAD", c, 0, b>>)
         /\ c' = c + SHARDS
=============================================================================
