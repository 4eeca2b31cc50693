------------------------------ MODULE Boundary ------------------------------
(* Boundary framing with boundary size B and markers of M bytes: a first    *)
(* byte with the size, then payload; at every multiple of B that is         *)
(* followed by data a marker with the distance back to the last declared    *)
(* block start. Positions count from 0.                                     *)
EXTENDS Integers, Sequences, FiniteSets

\* position in the framed stream of payload byte p
Abs(B, M, p) == IF p < B - 1 THEN p + 1
                ELSE LET u == p - (B - 1) IN B * (1 + u \div (B - M)) + M + (u % (B - M))
\* length of the framed stream for n bytes of payload
Framed(B, M, n) == IF n = 0 THEN 1 ELSE Abs(B, M, n - 1) + 1
\* markers in a framed stream of that length
Marks(B, len) == IF len = 0 THEN 0 ELSE (len - 1) \div B

\* the writer: n payload bytes so far, split position declared last, markers <<position, value>>
W0 == [n |-> 0, split |-> 1, marks |-> <<>>]
Write(B, M, w, k) ==
  LET old == Marks(B, Framed(B, M, w.n))
      new == Marks(B, Framed(B, M, w.n + k)) IN
  [w EXCEPT !.n = @ + k, !.marks = @ \o [i \in 1..(new - old) |-> <<B * (old + i), w.split - B * (old + i)>>]]
Split(B, M, w) == [w EXCEPT !.split = Framed(B, M, w.n)]
\* ops: k >= 0 writes k bytes, -1 declares a block start
WOp(B, M, w, op) == IF op < 0 THEN Split(B, M, w) ELSE Write(B, M, w, op)

\* the reader: offset o in N payload bytes; op [op, n], r = [len, eq, tell]
Rest(N, o) == IF o >= N THEN 0 ELSE N - o
ReadOk(N, o, op, r) ==
  CASE op.op = "seek" -> r.tell = op.n
    [] op.op = "tell" -> r.tell = o
    [] op.op = "read" -> /\ r.eq
                         /\ r.tell = o + r.len
                         /\ IF op.n < 0 THEN r.len = Rest(N, o)
                            ELSE /\ r.len <= op.n /\ r.len <= Rest(N, o)
                                 /\ (op.n > 0 /\ Rest(N, o) > 0) => r.len > 0
                                 /\ (o + op.n <= N) => r.len = op.n
    [] OTHER -> FALSE
After(o, op, r) == IF op.op = "seek" THEN op.n ELSE IF op.op = "read" THEN o + r.len ELSE o
=============================================================================
