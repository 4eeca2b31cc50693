------------------------------- MODULE Codec -------------------------------
(* Documents and their encodings.                                           *)
(* A document is a record                                                   *)
(*   props  : sequence of [k, v]         (v: an atom, structure and type)   *)
(*   texts  : sequence of [name, cps]    (cps: code points)                 *)
(*   layers : sequence of [name, n, fields, cols]                           *)
(*     fields : sequence of [f, t, a]    (a: sorted <<key, atom>> options)  *)
(*     cols   : per field the values of nodes 1..n                          *)
(* A value is [k, s, e]: kind, atom, numbers (0-based node positions,       *)
(* code point offsets).                                                     *)
(* The wire form is what the published layout stores: token sequences.      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

Val(k, s, e) == [k |-> k, s |-> s, e |-> e]
None == Val("none", "", <<>>)
Nil == Val("nil", "", <<>>)
Tok(k, s, e) == Val(k, s, e)

Opt(fd, key) == LET H == {i \in 1..Len(fd.a) : fd.a[i][1] = key} IN
                IF H = {} THEN "" ELSE fd.a[CHOOSE i \in H : TRUE][2]
Quote(s) == "s'" \o s \o "'"
Refers(fd, key, name) == Opt(fd, key) = Quote(name)
SpanOf(fd, name) == fd.t = "span" /\ Refers(fd, "context", name)

----------------------------------------------------------------------------
\* The content that survives encoding: an empty list of references is absent,
\* truth values in integer fields are numbers, raw bytes in an extension
\* field belong to the declared extension.
NormV(fd, v) ==
  CASE fd.t = "noderef_array" /\ v.k = "refs" /\ v.e = <<>> -> None
    [] fd.t \in {"i32", "i64"} /\ v.k = "bool" -> Val("int", IF v.s = "True" THEN "1" ELSE "0", <<>>)
    [] fd.t = "ext" /\ v.k = "bytes" -> Val("ext", v.s, <<>>)
    [] OTHER -> v
NormLayer(L) == [L EXCEPT !.cols = [j \in 1..Len(L.cols) |-> [i \in 1..Len(L.cols[j]) |-> NormV(L.fields[j], L.cols[j][i])]]]
Norm(D) == [D EXCEPT !.layers = [k \in 1..Len(D.layers) |-> NormLayer(D.layers[k])]]

\* Equality of documents: dictionaries by key, layers in order.
SameRange(a, b) == Len(a) = Len(b) /\ ToSet(a) = ToSet(b)
SameLayer(a, b) ==
  /\ a.name = b.name /\ a.n = b.n /\ SameRange(a.fields, b.fields)
  /\ a.len = b.len /\ a.extra = b.extra
  /\ \A j \in 1..Len(a.fields) : \E h \in 1..Len(b.fields) : a.fields[j] = b.fields[h] /\ a.cols[j] = b.cols[h]
Proj(s) == [i \in 1..Len(s) |-> [k |-> s[i].k, v |-> s[i].v]]
SameDoc(a, b) ==
  /\ SameRange(Proj(a.props), Proj(b.props)) /\ SameRange(a.texts, b.texts)
  /\ Len(a.layers) = Len(b.layers)
  /\ \A i \in 1..Len(a.layers) : SameLayer(a.layers[i], b.layers[i])

\* Every reference leads to a node of the named layer, spans lie in their text.
LayerAt(D, fd) == LET H == {k \in 1..Len(D.layers) : Refers(fd, "layer", D.layers[k].name)} IN
                  IF H = {} THEN 0 ELSE CHOOSE k \in H : TRUE
TextAt(D, fd) == LET H == {k \in 1..Len(D.texts) : Refers(fd, "context", D.texts[k].name)} IN
                 IF H = {} THEN 0 ELSE CHOOSE k \in H : TRUE
WellFormed(D) ==
  \A k \in 1..Len(D.layers) : \A j \in 1..Len(D.layers[k].fields) :
    LET fd == D.layers[k].fields[j]
        col == D.layers[k].cols[j]
        tn == IF fd.t \in {"noderef", "noderef_array", "nodespan"} /\ LayerAt(D, fd) > 0 THEN D.layers[LayerAt(D, fd)].n ELSE -1
        tl == IF fd.t = "span" /\ TextAt(D, fd) > 0 THEN Len(D.texts[TextAt(D, fd)].cps) ELSE -1
    IN /\ Len(col) = D.layers[k].n
       /\ \A i \in 1..Len(col) :
            /\ col[i].k \in {"ref", "refs", "nspan"} => \A q \in 1..Len(col[i].e) : (0 <= col[i].e[q] /\ col[i].e[q] < tn)
            /\ col[i].k = "nspan" => col[i].e[1] <= col[i].e[2]
            /\ col[i].k = "span" => (0 <= col[i].e[1] /\ col[i].e[1] <= col[i].e[2] /\ col[i].e[2] <= tl)

----------------------------------------------------------------------------
\* Span boundaries: the distinct ends of all spans over a text, and its ends.
Bounds(D, x) ==
  LET name == D.texts[x].name
      of(k, j) == IF SpanOf(D.layers[k].fields[j], name)
                  THEN UNION {IF D.layers[k].cols[j][i].k = "span" THEN ToSet(D.layers[k].cols[j][i].e) ELSE {} : i \in 1..D.layers[k].n}
                  ELSE {}
  IN {0, Len(D.texts[x].cps)} \cup UNION {of(k, j) : <<k, j>> \in {<<k, j>> \in (1..Len(D.layers)) \X (1..30) : j <= Len(D.layers[k].fields)}}
Sorted(S) == SetToSortSeq(S, <)
SegsOf(cps, b) == [i \in 1..Len(b) - 1 |-> SubSeq(cps, b[i] + 1, b[i + 1])]
Number(b) == [x \in ToSet(b) |-> (CHOOSE i \in 1..Len(b) : b[i] = x) - 1]

IntTok(n) == Tok("int", ToString(n), <<n>>)
Str(n) == ToString(n)
\* The token(s) of a value; num: boundary numbers of the field's text.
Tokens(fd, v, num) ==
  CASE fd.t = "span" -> IF v.k = "none" THEN <<Nil, Nil>> ELSE <<IntTok(num[v.e[1]]), IntTok(num[v.e[2]])>>
    [] v.k = "none" -> <<Nil>>
    [] fd.t \in {"i32", "i64"} -> <<Tok("int", v.s, <<>>)>>
    [] fd.t = "noderef" -> <<IntTok(v.e[1])>>
    [] fd.t = "noderef_array" -> <<Tok("arr", "", v.e)>>
    [] fd.t = "nodespan" -> <<Tok("arr", "", <<v.e[1], v.e[2] - v.e[1]>>)>>
    [] fd.t = "bin" -> <<Tok("bin", v.s, <<>>)>>
    [] fd.t = "ext" -> <<Tok(IF v.k = "doc" THEN "doc" ELSE "bin", v.s, <<>>)>>
    [] OTHER -> <<Tok(v.k, v.s, <<>>)>>          \* bool, float, str as they are

\* Column of a normalised document as tokens.
Column(fd, col, num) ==
  IF fd.t = "span"
  THEN [p \in 1..2 * Len(col) |-> Tokens(fd, col[(p + 1) \div 2], num)[2 - (p % 2)]]
  ELSE [i \in 1..Len(col) |-> Tokens(fd, col[i], num)[1]]
WireLayer(D, L, nums) ==
  [name |-> L.name, n |-> L.n, fields |-> [j \in 1..Len(L.fields) |-> [f |-> L.fields[j].f, t |-> L.fields[j].t, a |-> L.fields[j].a,
                                                                       has |-> L.fields[j].a # <<>>]],
   cols |-> [j \in 1..Len(L.fields) |-> Column(L.fields[j], L.cols[j], IF L.fields[j].t = "span" THEN nums[TextAt(D, L.fields[j])] ELSE <<>>)]]
Wire(D0) ==
  LET D == Norm(D0)
      bs == [x \in 1..Len(D.texts) |-> Sorted(Bounds(D, x))]
      nums == [x \in 1..Len(D.texts) |-> Number(bs[x])]
  IN [props |-> Proj(D.props),
      texts |-> [x \in 1..Len(D.texts) |-> [name |-> D.texts[x].name, segs |-> SegsOf(D.texts[x].cps, bs[x])]],
      layers |-> [k \in 1..Len(D.layers) |-> WireLayer(D, D.layers[k], nums)]]

\* Tokens read back: numbers of plain integer columns come as atoms.
SameTokens(t, a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(b) : a[i].k = b[i].k /\ a[i].s = b[i].s /\ a[i].e = b[i].e

----------------------------------------------------------------------------
\* Decoding of the wire form.
Offsets(segs) == [i \in 1..Len(segs) + 1 |-> FoldLeft(LAMBDA acc, s : acc + Len(s), 0, SubSeq(segs, 1, i - 1))]
Concat(segs) == FoldLeft(LAMBDA acc, s : acc \o s, <<>>, segs)
TextNamed(W, fd) == W.texts[CHOOSE x \in 1..Len(W.texts) : Refers(fd, "context", W.texts[x].name)]
DecodeTok(fd, t) ==
  CASE t.k = "nil" -> None
    [] fd.t \in {"i32", "i64"} -> Val("int", t.s, <<>>)
    [] fd.t = "noderef" -> Val("ref", "", t.e)
    [] fd.t = "noderef_array" -> Val("refs", "", t.e)
    [] fd.t = "nodespan" -> Val("nspan", "", <<t.e[1], t.e[1] + t.e[2]>>)
    [] fd.t = "bin" -> Val("bytes", t.s, <<>>)
    [] fd.t = "ext" -> IF t.k = "doc" THEN Val("doc", t.s, <<>>) ELSE Val("ext", t.s, <<>>)
    [] OTHER -> Val(t.k, t.s, <<>>)
DecodeCol(W, fd, n, ts) ==
  IF fd.t = "span"
  THEN LET off == Offsets(TextNamed(W, fd).segs) IN
       [i \in 1..n |-> IF ts[2 * i - 1].k = "nil" THEN None
                       ELSE Val("span", TextNamed(W, fd).name, <<off[ts[2 * i - 1].e[1] + 1], off[ts[2 * i].e[1] + 1]>>)]
  ELSE [i \in 1..n |-> DecodeTok(fd, ts[i])]
Decode(W) ==
  [props |-> W.props,
   texts |-> [x \in 1..Len(W.texts) |-> [name |-> W.texts[x].name, cps |-> Concat(W.texts[x].segs)]],
   layers |-> [k \in 1..Len(W.layers) |->
      LET L == W.layers[k]
          fs == [j \in 1..Len(L.fields) |-> [f |-> L.fields[j].f, t |-> L.fields[j].t, a |-> L.fields[j].a]] IN
      [name |-> L.name, n |-> L.n, len |-> L.n, extra |-> 0, fields |-> fs,
       cols |-> [j \in 1..Len(fs) |-> DecodeCol(W, fs[j], L.n, L.cols[j])]]]]

----------------------------------------------------------------------------
\* Parts of a document, as partial access gives them.
Part(D, names) == [D EXCEPT !.layers = SelectSeq(D.layers, LAMBDA L : L.name \in names)]
RefTargets(L) == {Opt(L.fields[j], "layer") : j \in {j \in 1..Len(L.fields) : L.fields[j].t \in {"noderef", "noderef_array", "nodespan"}}}
Closed(D, names) == \A k \in 1..Len(D.layers) : D.layers[k].name \in names =>
                        RefTargets(D.layers[k]) \subseteq {Quote(x) : x \in names}
=============================================================================
