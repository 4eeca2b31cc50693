----------------------------- MODULE TextSpans -----------------------------
(* Texts are sequences of code points; a span is a pair [b, e] of offsets.  *)
(* The operations a user has on texts and spans, as functions.              *)
EXTENDS Integers, Sequences, FiniteSets

White == (9..13) \cup (28..32) \cup {133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup (8192..8202)

Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

\* slice.indices: a bound counts from the end if negative and is clamped to 0..n
Bound(x, n) == Clamp(IF x < 0 THEN x + n ELSE x, 0, n)
SliceLo(op, n) == IF op.ha THEN Bound(op.a, n) ELSE 0
SliceHi(op, n) == IF op.hb THEN Bound(op.b, n) ELSE n

Chars(T, b, e) == IF b < e THEN SubSeq(T, b + 1, e) ELSE <<>>
Span(b, e) == [b |-> b, e |-> e]
Width(s) == s.e - s.b

Covered(s, b, e) == b <= s.b /\ s.e <= e
Intersects(s, b, e) == b < s.e /\ s.b < e

\* The largest subrange that neither begins nor ends with white space; an
\* empty range (inside the old one) if there are only white space characters.
Solid(T, s) == {i \in s.b .. (s.e - 1) : T[i + 1] \notin White}
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
TrimOk(T, s, r) ==
  IF Solid(T, s) = {} THEN r.b = r.e /\ s.b <= r.b /\ r.e <= s.e
  ELSE r = Span(SetMin(Solid(T, s)), SetMax(Solid(T, s)) + 1)
Trim(T, s) == IF Solid(T, s) = {} THEN Span(s.b, s.b)
              ELSE Span(SetMin(Solid(T, s)), SetMax(Solid(T, s)) + 1)

Refused == [ok |-> FALSE, b |-> 0, e |-> 0, s |-> <<>>, t |-> FALSE]
GiveSpan(T, b, e) == [ok |-> TRUE, b |-> b, e |-> e, s |-> Chars(T, b, e), t |-> FALSE]
GiveChars(cs) == [ok |-> TRUE, b |-> 0, e |-> 0, s |-> cs, t |-> FALSE]
GiveBool(x) == [ok |-> TRUE, b |-> 0, e |-> 0, s |-> <<>>, t |-> x]

\* The base a slice is relative to: the whole text (0) or an earlier span.
Base(T, sp, i) == IF i = 0 THEN Span(0, Len(T)) ELSE sp[i]

Slice(T, base, op) ==
  LET n == Width(base)
      lo == SliceLo(op, n)
      hi == SliceHi(op, n)
  IN IF hi < lo THEN Refused ELSE GiveSpan(T, base.b + lo, base.b + hi)

\* explicit offsets: nothing is clamped
Explicit(T, base, op) ==
  IF op.b < op.a \/ base.b + op.a < 0 \/ base.b + op.b > Len(T) THEN Refused
  ELSE GiveSpan(T, base.b + op.a, base.b + op.b)

\* only consecutive characters are a span (the step is str[1])
Step(T, base, op) == IF op.str[1] = 1 THEN Slice(T, base, op) ELSE Refused

Index(T, base, i) ==
  LET n == Width(base) IN
  IF i < -n \/ i >= n THEN Refused
  ELSE GiveChars(<<T[base.b + (IF i < 0 THEN i + n ELSE i) + 1]>>)

Expected(T, sp, op) ==
  LET base == Base(T, sp, op.s) IN
  CASE op.op = "slice"    -> Slice(T, base, op)
    [] op.op = "step"     -> Step(T, base, op)
    [] op.op = "meaningless" -> Refused
    [] op.op = "explicit" -> Explicit(T, base, op)
    [] op.op = "index"    -> Index(T, base, op.a)
    [] op.op = "text_to"  -> GiveChars(Chars(T, base.b, sp[op.o].e))
    [] op.op = "span_to"  -> IF sp[op.o].e < base.b THEN Refused ELSE GiveSpan(T, base.b, sp[op.o].e)
    [] op.op = "covered"  -> GiveBool(Covered(base, op.a, op.b))
    [] op.op = "intersected" -> GiveBool(Intersects(base, op.a, op.b))
    [] op.op = "coveredspan"  -> GiveBool(Covered(base, sp[op.o].b, sp[op.o].e))
    [] op.op = "intersectedspan" -> GiveBool(Intersects(base, sp[op.o].b, sp[op.o].e))
    [] op.op = "eq"       -> GiveBool(base = sp[op.o])
    [] op.op = "hasheq"   -> GiveBool(TRUE)
    [] op.op = "eqstr"    -> GiveBool(Chars(T, base.b, base.e) = op.str)
    [] op.op = "trim"     -> LET r == Trim(T, base) IN GiveSpan(T, r.b, r.e)
    [] op.op = "trim_"    -> LET r == Trim(T, base) IN GiveSpan(T, r.b, r.e)
    [] op.op = "str"      -> GiveChars(Chars(T, base.b, base.e))
    [] op.op = "iter"     -> GiveChars(Chars(T, base.b, base.e))
    [] op.op = "len"      -> [GiveBool(FALSE) EXCEPT !.b = Width(base)]

Agrees(T, sp, op, r) ==
  IF op.op \in {"trim", "trim_"} /\ r.ok
  THEN TrimOk(T, Base(T, sp, op.s), Span(r.b, r.e)) /\ r.s = Chars(T, r.b, r.e)
  ELSE IF op.op = "explicit" /\ (op.a < 0 \/ op.b > Width(Base(T, sp, op.s)))     \* beyond the span: open, unless beyond the text
  THEN r \in {Refused, Expected(T, sp, op)}
  ELSE r = Expected(T, sp, op)
=============================================================================
