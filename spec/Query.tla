------------------------------- MODULE Query -------------------------------
(* Predicates over node fields and queries. A value is [k, n, q, t]: number *)
(* (n, twice its value), nan, text (q code points), bytes, span (q offsets, *)
(* t characters), node (n), list (q), none. Truth is "T", "F" or "E" where  *)
(* the combination has no value (an absent or foreign value is compared by  *)
(* order, a cover of an absent span).                                       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Same(a, b) ==
  CASE a.k = "nan" \/ b.k = "nan" -> FALSE
    [] a.k = "none" \/ b.k = "none" -> a.k = b.k
    [] a.k = "span" /\ b.k = "str" -> a.t = b.q
    [] a.k = "str" /\ b.k = "span" -> a.q = b.t
    [] a.k # b.k -> FALSE
    [] a.k \in {"num", "node"} -> a.n = b.n
    [] OTHER -> a.q = b.q
Bit(x) == IF x THEN "T" ELSE "F"
RECURSIVE LexLess(_, _)
LexLess(p, q) == IF q = <<>> THEN FALSE ELSE IF p = <<>> THEN TRUE
                 ELSE IF Head(p) = Head(q) THEN LexLess(Tail(p), Tail(q)) ELSE Head(p) < Head(q)
Orderable(a, b) == \/ a.k \in {"num", "nan"} /\ b.k \in {"num", "nan"}
                   \/ a.k = b.k /\ a.k \in {"str", "bytes"}
Less(a, b) == IF a.k = "nan" \/ b.k = "nan" THEN FALSE ELSE IF a.k = "num" THEN a.n < b.n ELSE LexLess(a.q, b.q)
Truthy(v) == CASE v.k = "none" -> FALSE [] v.k = "num" -> v.n # 0 [] v.k \in {"nan", "node"} -> TRUE [] v.k = "span" -> v.t # <<>> [] OTHER -> v.q # <<>>

\* x: a node, [i, v] with v its value per field
RECURSIVE Eval(_, _)
Eval(p, x) ==
  CASE p.op = "eq" -> Bit(Same(x.v[p.f], p.v))
    [] p.op = "ne" -> Bit(~Same(x.v[p.f], p.v))
    [] p.op = "lt" -> IF Orderable(x.v[p.f], p.v) THEN Bit(Less(x.v[p.f], p.v)) ELSE "E"
    [] p.op = "gt" -> IF Orderable(x.v[p.f], p.v) THEN Bit(Less(p.v, x.v[p.f])) ELSE "E"
    [] p.op = "le" -> IF Orderable(x.v[p.f], p.v) THEN Bit(Less(x.v[p.f], p.v) \/ Same(x.v[p.f], p.v)) ELSE "E"
    [] p.op = "ge" -> IF Orderable(x.v[p.f], p.v) THEN Bit(Less(p.v, x.v[p.f]) \/ Same(x.v[p.f], p.v)) ELSE "E"
    [] p.op = "any" -> Bit(\E i \in 1..Len(p.vs) : Same(x.v[p.f], p.vs[i]))
    [] p.op = "none" -> Bit(x.v[p.f].k = "none")
    [] p.op = "has" -> Bit(x.v[p.f].k # "none")
    [] p.op = "covered" -> IF x.v[p.f].k # "span" THEN "E" ELSE Bit(p.a <= x.v[p.f].q[1] /\ x.v[p.f].q[2] <= p.b)
    [] p.op = "intersected" -> IF x.v[p.f].k # "span" THEN "E" ELSE Bit(p.b > x.v[p.f].q[1] /\ p.a < x.v[p.f].q[2])
    [] p.op = "truthy" -> Bit(Truthy(x.v[p.f]))
    [] p.op = "same" -> Bit(Same(x.v[p.f], x.v[p.g]))            \* a function of two fields
    [] p.op = "absent" -> Bit(x.v[p.f].k = "none" /\ x.v[p.g].k = "none")
    [] p.op = "only" -> Bit(x.v[p.f].k # "none" /\ x.v[p.g].k = "none")
    [] p.op = "even" -> Bit(x.i % 2 = 0)                         \* a function of the node
    [] p.op = "not" -> LET l == Eval(p.l, x) IN IF l = "E" THEN "E" ELSE Bit(l = "F")
    [] p.op = "and" -> LET l == Eval(p.l, x) IN IF l = "T" THEN Eval(p.r, x) ELSE l
    [] p.op = "or" -> LET l == Eval(p.l, x) IN IF l = "F" THEN Eval(p.r, x) ELSE l
Defined(p, nodes) == \A i \in 1..Len(nodes) : Eval(p, nodes[i]) # "E"
\* the nodes of a sequence for which p is true
Chosen(p, nodes) == SelectSeq(nodes, LAMBDA x : Eval(p, x) = "T")
=============================================================================
