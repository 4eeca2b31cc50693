----------------------------- MODULE BoundaryMC -----------------------------
(* A small boundary: the framing byte by byte. frame is the stream the      *)
(* writer produces (payload bytes by their number, markers negative).       *)
EXTENDS Boundary, TLC, Json
CONSTANTS B, M, NOPS, SIZES
VARIABLES w, frame, ops, done
vars == <<w, frame, ops, done>>
\* byte by byte: before a payload byte at a multiple of B comes a marker
RECURSIVE Emit(_, _, _, _)
Emit(f, n, k, split) ==
  IF k = 0 THEN f
  ELSE LET g == IF Len(f) % B = 0 THEN f \o [i \in 1..M |-> (split - Len(f)) - 1000] ELSE f
       IN Emit(Append(g, n), n + 1, k - 1, split)
Init == w = W0 /\ frame = <<-1>> /\ ops = <<>> /\ done = FALSE
Act == /\ ~done /\ Len(ops) < NOPS /\ UNCHANGED done
       /\ \/ \E k \in SIZES : w' = Write(B, M, w, k) /\ frame' = Emit(frame, w.n, k, w.split) /\ ops' = Append(ops, k)
          \/ w' = Split(B, M, w) /\ frame' = frame /\ ops' = Append(ops, -1)
Fin == ~done /\ Len(ops) = NOPS /\ done' = TRUE /\ PrintT(ToJson([cls |-> "model", ops |-> ops])) /\ UNCHANGED <<w, frame, ops>>
Next == Act \/ Fin
Inv ==
  /\ Len(frame) = Framed(B, M, w.n)
  /\ \A p \in 0..(w.n - 1) : frame[Abs(B, M, p) + 1] = p
  /\ Len(w.marks) = Marks(B, Len(frame))
  \* every multiple of B followed by data carries the marker, complete
  /\ \A i \in 1..Len(w.marks) : /\ w.marks[i][1] = B * i /\ w.marks[i][1] + M < Len(frame)
                                /\ w.marks[i][2] <= 0 /\ w.marks[i][1] + w.marks[i][2] >= 1
                                /\ \A j \in 1..M : frame[B * i + j] = w.marks[i][2] - 1000
  \* nothing else in the stream
  /\ Len(frame) = 1 + w.n + M * Len(w.marks)
=============================================================================
