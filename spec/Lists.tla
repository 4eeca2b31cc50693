------------------------------- MODULE Lists -------------------------------
(* Lists of nodes of several origins. An origin is a layer, that declares a *)
(* type for each of its fields, or a node of no layer, whose values have    *)
(* types of their own. A field of the list has the least type that all the  *)
(* types of that field can be read as; if there is none the list is refused.*)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
Chain == <<"i1", "i32", "i64", "f64">>
Numeric == ToSet(Chain)
Rank(t) == CHOOSE k \in 1..4 : Chain[k] = t
Leq(a, b) == a = b \/ (a \in Numeric /\ b \in Numeric /\ Rank(a) <= Rank(b))
Joinable(S) == "bad" \notin S /\ (Cardinality(S) = 1 \/ S \subseteq Numeric)     \* bad: a value of no type
Join(S) == CHOOSE t \in S : \A u \in S : Leq(u, t)
\* fields of a list: origins is a sequence of sequences of [f, t]; t is the set of types the origin may give the field
FieldNames(os) == UNION {{os[i][j].f : j \in 1..Len(os[i])} : i \in 1..Len(os)}
TypesOf(os, f) == {os[p[1]][p[2]].t : p \in {q \in (1..Len(os)) \X (0..20) : q[2] \in 1..Len(os[q[1]]) /\ os[q[1]][q[2]].f = f}}
Refused(os) == \E f \in FieldNames(os) : ~Joinable(TypesOf(os, f))
\* an integer of a node in no layer counts as 32 or 64 bit
Readings(S) == IF "int" \notin S THEN {S} ELSE {(S \ {"int"}) \cup {"i32"}, (S \ {"int"}) \cup {"i64"}}
MayRefuse(os) == \E f \in FieldNames(os) : \E R \in Readings(TypesOf(os, f)) : ~Joinable(R)
TypeOk(os, f, t) == \E R \in Readings(TypesOf(os, f)) : Joinable(R) /\ Join(R) = t
ListOk(os, refused, types) ==      \* types: sequence of [f, t]
  IF MayRefuse(os) THEN refused
  ELSE /\ ~refused
       /\ {types[i].f : i \in 1..Len(types)} = FieldNames(os)
       /\ Len(types) = Cardinality(FieldNames(os))
       /\ \A i \in 1..Len(types) : TypeOk(os, types[i].f, types[i].t)
-----------------------------------------------------------------------------
\* Python sequences: the elements a slice or an index list selects
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
Bound(x, n, st) == LET y == IF x < 0 THEN x + n ELSE x IN IF st > 0 THEN Clamp(y, 0, n) ELSE Clamp(y, -1, n - 1)
None == 999
SliceFrom(a, n, st) == IF a = None THEN IF st > 0 THEN 0 ELSE n - 1 ELSE Bound(a, n, st)
SliceTo(b, n, st) == IF b = None THEN IF st > 0 THEN n ELSE -1 ELSE Bound(b, n, st)
SliceLen(a, b, st) == IF st > 0 THEN IF a < b THEN (b - a - 1) \div st + 1 ELSE 0 ELSE IF b < a THEN (a - b - 1) \div (-st) + 1 ELSE 0
Slice(s, a0, b0, st) ==
  LET n == Len(s) a == SliceFrom(a0, n, st) b == SliceTo(b0, n, st)
  IN [k \in 1..SliceLen(a, b, st) |-> s[a + (k - 1) * st + 1]]
Pick(s, ix) == [k \in 1..Len(ix) |-> IF ix[k] < 0 THEN s[Len(s) + ix[k] + 1] ELSE s[ix[k] + 1]]
InRange(s, ix) == \A k \in 1..Len(ix) : ix[k] >= -Len(s) /\ ix[k] < Len(s)
=============================================================================
