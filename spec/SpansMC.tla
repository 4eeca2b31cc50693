------------------------------ MODULE SpansMC ------------------------------
(* All texts over a small alphabet with all pairs of slice bounds: theorems *)
(* of the span operations, and one battery of operations per text and pair. *)
EXTENDS TextSpans, TLC, Json
CONSTANT N
Alphabet == {97, 32}
VARIABLES T, a, b, done
vars == <<T, a, b, done>>
Texts == UNION {[1..n -> Alphabet] : n \in 0..N}
None == N + 50
Op(name, s, x, y, o) == [op |-> name, s |-> s, o |-> o, a |-> IF x = None THEN 0 ELSE x, ha |-> x # None,
                         b |-> IF y = None THEN 0 ELSE y, hb |-> y # None, str |-> <<97>>]
Battery == << Op("slice", 0, a, b, 0), Op("explicit", 0, IF a = None THEN 0 ELSE a, IF b = None THEN 1 ELSE b, 0),
              Op("trim", 1, 0, 0, 0), Op("str", 1, 0, 0, 0), Op("len", 1, 0, 0, 0), Op("iter", 1, 0, 0, 0),
              Op("slice", 1, 1, None, 0), Op("slice", 1, None, -1, 0), Op("index", 1, 0, 0, 0), Op("index", 1, -1, 0, 0),
              Op("index", 1, 1, 0, 0), Op("index", 0, IF a = None THEN 0 ELSE a, 0, 0),
              Op("slice", 0, 1, 2, 0), Op("text_to", 1, 0, 0, 13), Op("span_to", 1, 0, 0, 13), Op("span_to", 13, 0, 0, 1),
              Op("coveredspan", 1, 0, 0, 13), Op("coveredspan", 13, 0, 0, 1), Op("intersectedspan", 1, 0, 0, 13),
              Op("intersectedspan", 13, 0, 0, 1), Op("covered", 1, 1, 2, 0), Op("intersected", 1, 1, 2, 0),
              Op("intersected", 13, IF a = None THEN 0 ELSE a, IF b = None THEN 3 ELSE b, 0),
              Op("covered", 13, IF a = None THEN 0 ELSE a, IF b = None THEN 3 ELSE b, 0),
              Op("eq", 1, 0, 0, 13), Op("eq", 1, 0, 0, 2), Op("hasheq", 1, 0, 0, 2), Op("eqstr", 1, 0, 0, 0), Op("trim_", 1, 0, 0, 0),
              Op("str", 1, 0, 0, 0), Op("slice", 1, None, None, 0) >>
Init == T \in Texts /\ a \in (-(N + 1)..(N + 1)) \cup {None} /\ b \in (-(N + 1)..(N + 1)) \cup {None} /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<T, a, b>>
        /\ PrintT(ToJson([cls |-> "model", T |-> T, ops |-> Battery]))
S == Slice(T, Span(0, Len(T)), Battery[1])
Inv ==
  /\ S.ok => /\ 0 <= S.b /\ S.b <= S.e /\ S.e <= Len(T) /\ Len(S.s) = S.e - S.b
             /\ LET t == Trim(T, Span(S.b, S.e)) IN
                  /\ TrimOk(T, Span(S.b, S.e), t)
                  /\ Trim(T, t) = t                                  \* idempotent
                  /\ Covered(t, S.b, S.e)
             /\ Covered(Span(S.b, S.e), 0, Len(T))
             /\ \A x \in 0..Len(T), y \in 0..Len(T) : x <= y =>
                  /\ (Intersects(Span(S.b, S.e), x, y) <=> Intersects(Span(x, y), S.b, S.e))
                  /\ (S.b < S.e /\ Covered(Span(S.b, S.e), x, y) => Intersects(Span(S.b, S.e), x, y))
  \* explicit offsets in range are the slice with the same bounds
  /\ (a # None /\ b # None /\ 0 <= a /\ a <= b /\ b <= Len(T)) => Explicit(T, Span(0, Len(T)), Battery[1]) = S
=============================================================================
