----------------------------- MODULE JudgeCodec -----------------------------
(* A recorded case: documents seen (docs), which of them is the original    *)
(* (d0), what decoding gave (dec), how the original looks after encoding    *)
(* (after), digests that must agree (same), encoded bytes (wires) and       *)
(* answers to partial requests (reqs).                                      *)
EXTENDS JudgeCases, Codec

WireOk(D, w, exact) ==
  LET W == Wire(D) IN
  IF ~w.ok THEN {"unreadable"} ELSE
     (IF w.magic THEN {} ELSE {"magic"})
  \cup (IF w.propsLen = w.propsUsed /\ w.textsLen = w.textsUsed /\ w.rest = 0 /\ \A k \in 1..Len(w.layers) : w.layers[k].len = w.layers[k].used
        THEN {} ELSE {"length"})
  \cup (IF \A k \in 1..Len(w.layers) : \A j \in 1..Len(w.layers[k].special) : w.layers[k].special[j] = FALSE THEN {} ELSE {"special"})
  \cup (IF SameRange(w.props, W.props) THEN {} ELSE {"props"})
  \cup (IF exact => SameRange(w.texts, W.texts) THEN {} ELSE {"segments"})
  \cup (IF Len(w.layers) = Len(W.layers) /\ \A k \in 1..Len(W.layers) :
             /\ w.layers[k].name = W.layers[k].name /\ w.layers[k].n = W.layers[k].n
             /\ LET wf == w.layers[k].fields
                    xf == W.layers[k].fields IN
                /\ Len(wf) = Len(xf)
                /\ \A j \in 1..Len(xf) : \E h \in 1..Len(wf) :
                      /\ wf[h].f = xf[j].f /\ wf[h].t = xf[j].t /\ wf[h].a = xf[j].a
                      /\ exact => SameTokens(xf[j].t, w.layers[k].cols[h], W.layers[k].cols[j])
        THEN {} ELSE {"columns"})
  \cup (IF exact \/ SameDoc(Decode(w), Norm(D)) THEN {} ELSE {"meaning"})

SchemaOf(D) == [k \in 1..Len(D.layers) |-> [name |-> D.layers[k].name, fields |-> D.layers[k].fields]]
Keyed(s, keys) == IF keys = <<>> THEN s ELSE SelectSeq(s, LAMBDA x : x.k \in ToSet(keys))
Named(s, keys) == IF keys = <<>> THEN s ELSE SelectSeq(s, LAMBDA x : x.name \in ToSet(keys))
\* layers may be given in the order of the request
PartOk(D, keys, d) == LET P == Part(D, ToSet(keys)) IN
  /\ Len(d.layers) = Len(P.layers)
  /\ \A i \in 1..Len(P.layers) : \E j \in 1..Len(d.layers) : SameLayer(P.layers[i], d.layers[j])
  /\ SameDoc([P EXCEPT !.layers = <<>>], [d EXCEPT !.layers = <<>>])
ReqOk(D, q, docs) ==
  CASE q.op = "props" -> SameRange(q.props, Keyed(Proj(D.props), q.keys))
    [] q.op = "texts" -> SameRange(q.texts, Named(D.texts, q.keys))
    [] q.op = "schema" -> /\ Len(q.layers) = Len(D.layers)
                          /\ \A k \in 1..Len(D.layers) : /\ q.layers[k].name = D.layers[k].name
                                                         /\ SameRange(q.layers[k].fields, D.layers[k].fields)
    [] q.op = "document" -> SameDoc(docs[q.d], D)
    [] q.op = "part" -> PartOk(D, q.keys, docs[q.d])
    [] OTHER -> TRUE

CodecBad(cs) ==
  LET o == cs.out
      D0 == o.docs[o.d0]
      D == Norm(D0)
  IN {o.dec[i].c : i \in {i \in 1..Len(o.dec) : ~SameDoc(o.docs[o.dec[i].d], D)}}
     \cup {o.after[i].c : i \in {i \in 1..Len(o.after) : ~(o.after[i].d = o.d0 \/ SameDoc(o.docs[o.after[i].d], D0))}}
     \cup {o.same[i].c : i \in {i \in 1..Len(o.same) : Cardinality(ToSet(o.same[i].h)) > 1}}
     \cup {o.flags[i].c : i \in {i \in 1..Len(o.flags) : ~o.flags[i].ok}}
     \cup UNION {{o.wires[i].c \o "." \o b : b \in WireOk(D0, o.wires[i].w, o.wires[i].exact)} : i \in 1..Len(o.wires)}
     \cup {o.reqs[i].c : i \in {i \in 1..Len(o.reqs) : ~ReqOk(D, o.reqs[i], o.docs)}}
=============================================================================
