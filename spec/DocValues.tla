----------------------------- MODULE DocValues -----------------------------
(* Field types and values. A value is a record                              *)
(*   k : kind  - none int bool float str bytes node list nspan tspan ext    *)
(*               doc obj (anything else)                                    *)
(*   s : its content as an atom (numbers, strings, bytes), or for a text    *)
(*       span the name of its text                                          *)
(*   w : for int the width it needs (32, 64, or 65 for more); for a text    *)
(*       span 1 if it is a range of the document's own text of that name    *)
(*   e : for node/list/nspan the nodes (0: not a node), for tspan the range *)
(* A field is a record f (name), t (type), a (target layer or text), d (its *)
(* default, a value of kind none if it has none).                           *)
EXTENDS Integers, Sequences, FiniteSets

NoVal == [k |-> "none", s |-> "", w |-> 0, e |-> <<>>]
RefTypes == {"noderef", "noderef_array", "nodespan"}

\* own(n): the layer instance owning node n (0: none). name(l): its name.
\* leq(a, b): "y"/"n" order of two nodes, "?" if they have no common order.
ValidValue(ft, v, own(_), name(_), leq(_, _)) ==
  LET onLayer(n) == n > 0 /\ own(n) > 0 /\ name(own(n)) = ft.a
  IN
  CASE ft.t = "i32"  -> v.k \in {"int", "bool"} /\ v.w <= 32
    [] ft.t = "i64"  -> v.k \in {"int", "bool"} /\ v.w <= 64
    [] ft.t = "f64"  -> v.k = "float"
    [] ft.t = "i1"   -> v.k = "bool"
    [] ft.t = "str"  -> v.k = "str"
    [] ft.t = "bin"  -> v.k = "bytes"
    [] ft.t = "noderef" -> v.k = "node" /\ onLayer(v.e[1])
    [] ft.t = "noderef_array" -> v.k = "list" /\ \A i \in 1..Len(v.e) : onLayer(v.e[i])
    [] ft.t = "nodespan" -> v.k = "nspan" /\ onLayer(v.e[1]) /\ onLayer(v.e[2]) /\ leq(v.e[1], v.e[2]) # "n"
    [] ft.t = "span" -> v.k = "tspan" /\ v.s = ft.a
    [] ft.t = "ext"  -> v.k \in {"ext", "bytes", "doc"}
    [] OTHER -> FALSE

\* Combinations on which nothing is promised: any value in an extension field
\* before encoding, a span of nodes where a list of nodes is declared, nodes
\* of two layers that share the declared name as the ends of a node span.
Unspecified(ft, v, own(_), name(_), leq(_, _)) ==
  \/ ft.t = "ext" /\ v.k \notin {"ext", "bytes", "doc"}
  \/ ft.t = "noderef_array" /\ v.k = "nspan"
  \/ /\ ft.t = "nodespan" /\ v.k = "nspan"
     /\ \A i \in 1..2 : v.e[i] > 0 /\ own(v.e[i]) > 0 /\ name(own(v.e[i])) = ft.a
     /\ leq(v.e[1], v.e[2]) = "?"

\* A reference that leads out of the document: accepted when a value is
\* checked alone (names agree), refused when the document is encoded.
Inside(ft, v, own(_), here(_)) ==
  /\ v.k \in {"node", "list", "nspan"} => \A i \in 1..Len(v.e) : v.e[i] > 0 /\ here(own(v.e[i]))
  /\ v.k = "tspan" => v.w = 1
=============================================================================
