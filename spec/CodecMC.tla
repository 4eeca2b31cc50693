------------------------------ MODULE CodecMC ------------------------------
(* All small documents with two layers A (NA nodes or fewer) and B (NB or   *)
(* fewer), each with one field of any type, over a text of two characters.  *)
(* Theorem: decoding the wire form gives the normal form of the document.   *)
EXTENDS Codec, TLC, Json
CONSTANTS NA, NB
VARIABLES D, done
Cps == <<97, 128512>>
Types == {"i32", "span", "refA", "refB", "refsA", "refsB", "spanA", "spanB"}
Tgt(t) == IF t \in {"refA", "refsA", "spanA"} THEN "A" ELSE "B"
Fd(t) == CASE t = "i32" -> [f |-> "x", t |-> "i32", a |-> <<>>]
           [] t = "span" -> [f |-> "x", t |-> "span", a |-> <<<<"context", "s'main'">>>>]
           [] OTHER -> [f |-> "x", t |-> IF t \in {"refA", "refB"} THEN "noderef" ELSE IF t \in {"refsA", "refsB"} THEN "noderef_array" ELSE "nodespan",
                        a |-> <<<<"layer", Quote(Tgt(t))>>>>]
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Vals(t, na, nb) ==
  LET m == IF Tgt(t) = "A" THEN na ELSE nb
      idx == 0..(m - 1) IN
  {None} \cup
  CASE t = "i32" -> {Val("int", "0", <<>>), Val("int", "-1", <<>>), Val("bool", "True", <<>>)}
    [] t = "span" -> {Val("span", "main", <<p[1], p[2]>>) : p \in {p \in (0..2) \X (0..2) : p[1] <= p[2]}}
    [] t \in {"refA", "refB"} -> {Val("ref", "", <<i>>) : i \in idx}
    [] t \in {"refsA", "refsB"} -> {Val("refs", "", s) : s \in Seqs(idx, 2)}
    [] OTHER -> {Val("nspan", "", <<p[1], p[2]>>) : p \in {p \in idx \X idx : p[1] <= p[2]}}
Layer(name, n, t, col) == [name |-> name, n |-> n, len |-> n, extra |-> 0, fields |-> <<Fd(t)>>, cols |-> <<col>>]
Init == /\ done = FALSE
        /\ \E na \in 0..NA, nb \in 0..NB, ta \in Types, tb \in Types :
           \E ca \in [1..na -> Vals(ta, na, nb)], cb \in [1..nb -> Vals(tb, na, nb)] :
             D = [props |-> <<>>, texts |-> <<[name |-> "main", cps |-> Cps]>>,
                  layers |-> <<Layer("A", na, ta, ca), Layer("B", nb, tb, cb)>>]
Next == ~done /\ done' = TRUE /\ UNCHANGED D /\ PrintT(ToJson([cls |-> "model", D |-> D]))
W == Wire(D)
Inv ==
  /\ WellFormed(D)
  /\ Decode(W) = Norm(D)
  /\ Norm(Norm(D)) = Norm(D)
  /\ Wire(Decode(W)) = W                              \* stable
  /\ \A x \in 1..Len(W.texts) : \A i \in 1..Len(W.texts[x].segs) : W.texts[x].segs[i] # <<>>
  /\ \A k \in 1..2 : Len(W.layers[k].cols[1]) = W.layers[k].n * (IF W.layers[k].fields[1].t = "span" THEN 2 ELSE 1)
  \* dropping the layers that a closed set does not name is a document again
  /\ \A S \in SUBSET {"A", "B"} : Closed(D, S) => WellFormed(Part(D, S))
=============================================================================
