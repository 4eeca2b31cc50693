---------------------------- MODULE CollectionMC ----------------------------
(* All short writer histories with all block limits, an interruption at any *)
(* point, and all short reader histories over the result.                   *)
EXTENDS Collection, TLC, Json
CONSTANTS NW, NR, CAP
VARIABLES ops, w, cap, phase, S, rops, last
vars == <<ops, w, cap, phase, S, rops, last>>
R0 == [ok |-> TRUE, g |-> 0, docs |-> <<>>]
Init == ops = <<>> /\ w = Empty /\ cap \in 1..CAP /\ phase = "write" /\ S = {} /\ rops = <<>> /\ last = <<>>
F == [i \in 1..Len(w.blocks) |-> Len(w.blocks[i])]
N == Len(All(w.blocks))
Write == /\ phase = "write" /\ Len(ops) < NW
         /\ \E op \in {0, Len(Docs(ops)) + 1} : ops' = Append(ops, op) /\ w' = Apply(w, op, cap)
         /\ UNCHANGED <<cap, phase, S, rops, last>>
Close == /\ phase = "write" /\ w' = Flush(w) /\ phase' = "read" /\ S' = Open /\ UNCHANGED <<ops, cap, rops, last>>
Ops == {[op |-> "next", g |-> 0, b |-> 0], [op |-> "readblock", g |-> 0, b |-> 0]}
       \cup {[op |-> "get", g |-> g, b |-> 0] : g \in 1..N} \cup {[op |-> "seek", g |-> 0, b |-> b] : b \in 1..Len(F)}
\* the results a reader may give
Results(op) ==
  CASE op.op = "next" -> {[R0 EXCEPT !.g = NextDoc(F, s)] : s \in S}
    [] op.op = "get" -> {[R0 EXCEPT !.g = op.g]}
    [] op.op = "readblock" -> {[R0 EXCEPT !.docs = IF Block(s) <= Len(F) THEN DocsOf(F, Block(s)) ELSE <<>>] : s \in S}
    [] OTHER -> {R0}
Read == /\ phase = "read" /\ Len(rops) < NR
        /\ \E op \in Ops : \E r \in Results(op) :
             /\ rops' = Append(rops, op) /\ S' = Step(F, S, op, r)
             /\ last' = IF op.op = "readblock" THEN <<>> ELSE IF op.op = "seek" THEN <<>> ELSE Append(last, r.g)
        /\ UNCHANGED <<ops, w, cap, phase>>
Emit == /\ phase = "read" /\ Len(rops) = NR /\ phase' = "done" /\ PrintT(ToJson([cls |-> "model", ops |-> ops, cap |-> cap, rops |-> rops]))
        /\ UNCHANGED <<ops, w, cap, S, rops, last>>
Next == Write \/ Close \/ Read \/ Emit
Inv ==
  /\ All(w.blocks) \o w.cur = Docs(ops)                 \* nothing lost, invented or reordered
  /\ \A i \in 1..Len(w.blocks) : Len(w.blocks[i]) \in 1..cap
  /\ Len(w.cur) < cap
  /\ w = [blocks |-> Written(ops, cap).blocks, cur |-> w.cur] \/ phase # "write"
  /\ phase # "write" => w.cur = <<>> /\ S # {}
  \* while only documents are read (by next or reference) the reader's place is determined,
  \* and reading on gives the documents after the last one, in order
  /\ phase = "read" /\ (\A i \in 1..Len(rops) : rops[i].op \in {"next", "get"}) =>
        /\ Cardinality(S) = 1
        /\ \A s \in S : \A i \in 1..Len(last) : i = Len(last) =>
             (NextDoc(F, s) = IF last[i] = 0 \/ last[i] = N THEN 0 ELSE last[i] + 1)
  \* interruption with blocks of two bytes after a header of one byte
  /\ LET ends == [i \in 1..Len(w.blocks) |-> 1 + 2 * i] IN
     \A k \in 0..(1 + 2 * Len(w.blocks)) :
        LET got == Recovered(w.blocks, ends, k) IN
        /\ IsPrefix(got, Docs(ops))
        /\ k = 1 + 2 * Len(w.blocks) => got = All(w.blocks)
        /\ \A i \in 1..Len(w.blocks) : ends[i] <= k => \A j \in 1..Len(w.blocks[i]) : w.blocks[i][j] \in ToSet(got)
=============================================================================
