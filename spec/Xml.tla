-------------------------------- MODULE Xml --------------------------------
(* The XML export of a document (Codec's record, strings with code points   *)
(* in e). The observed tree: elements [t, at, ch], at: attributes           *)
(* [n, c (code points), s (atom), f (bits of the number or ""), b (hex of   *)
(* the base64 content or "")].                                              *)
EXTENDS Codec

XmlChar(c) == \/ c \in {9, 10, 13}
              \/ 32 <= c /\ c <= 55295
              \/ 57344 <= c /\ c <= 65533
              \/ 65536 <= c /\ c <= 1114111
Clean(cps) == [i \in 1..Len(cps) |-> IF XmlChar(cps[i]) THEN cps[i] ELSE 32]

Digits(n) == LET RECURSIVE D(_, _)
                 D(k, s) == IF k < 10 THEN <<48 + k>> \o s ELSE D(k \div 10, <<48 + (k % 10)>> \o s)
             IN D(n, <<>>)
\* a name that can be an attribute's (XML 1.0, 2.3, without colons, and not reserved)
NameStart(c) == \/ (65 <= c /\ c <= 90) \/ c = 95 \/ (97 <= c /\ c <= 122) \/ (192 <= c /\ c <= 767 /\ c \notin {215, 247})
                \/ (880 <= c /\ c <= 8191 /\ c # 894) \/ c \in {8204, 8205} \/ (8304 <= c /\ c <= 8591) \/ (11264 <= c /\ c <= 12271)
                \/ (12289 <= c /\ c <= 55295) \/ (63744 <= c /\ c <= 64975) \/ (65008 <= c /\ c <= 65533)   \* beyond the basic plane parsers differ
NameChar(c) == \/ NameStart(c) \/ c \in {45, 46, 183, 8255, 8256} \/ (48 <= c /\ c <= 57) \/ (768 <= c /\ c <= 879)
Reserved(s) == Len(s) >= 3 /\ s[1] \in {88, 120} /\ s[2] \in {77, 109} /\ s[3] \in {76, 108}
IsName(s) == s # <<>> /\ NameStart(s[1]) /\ (\A i \in 1..Len(s) : NameChar(s[i])) /\ ~Reserved(s)

Has(el, n) == \E i \in 1..Len(el.at) : el.at[i].n = n
At(el, n) == el.at[CHOOSE i \in 1..Len(el.at) : el.at[i].n = n]
Is(el, n, s) == Has(el, n) /\ At(el, n).s = s
IsC(el, n, c) == Has(el, n) /\ At(el, n).c = c
Ch(el, t) == SelectSeq(el.ch, LAMBDA x : x.t = t)
One(el, t) == Len(Ch(el, t)) = 1
The(el, t) == Ch(el, t)[1]

PropsOk(D, el) ==
  LET ps == Ch(el, "prop") IN
  /\ Len(ps) = Len(D.props)
  /\ \A i \in 1..Len(D.props) : \E j \in 1..Len(ps) :
       /\ IsC(ps[j], "key", Clean(D.props[i].kc))
       /\ D.props[i].plain => IsC(ps[j], "value", Clean(D.props[i].sv))
SchemaOk(D, el) ==
  LET ds == Ch(el, "define") IN
  /\ Len(ds) = Len(D.layers)
  /\ \A k \in 1..Len(D.layers) : LET L == D.layers[k] fs == Ch(ds[k], "field") IN
       /\ IsC(ds[k], "layer", Clean(L.nc)) /\ Len(fs) = Len(L.fields)
       /\ \A j \in 1..Len(L.fields) : \E h \in 1..Len(fs) :
            /\ IsC(fs[h], "name", Clean(L.fields[j].nc)) /\ Is(fs[h], "type", L.fields[j].t)
            /\ LET args == Ch(fs[h], "arg") IN
               /\ Len(args) = Len(L.fields[j].a)
               /\ \A q \in 1..Len(args) : \E p \in 1..Len(args) :
                    /\ Is(args[p], "key", L.fields[j].a[q][1])
                    /\ L.fields[j].ac[q] # <<-1>> => IsC(args[p], "value", Clean(L.fields[j].ac[q]))
\* Segments; with the verbose option numbered, with offsets and the whole text.
TextsOk(D, el, segs, verbose) ==
  LET ts == Ch(el, "text") IN
  /\ Len(ts) = Len(D.texts)
  /\ \A x \in 1..Len(D.texts) : \E y \in 1..Len(ts) :
       /\ IsC(ts[y], "name", Clean(D.texts[x].nc))
       /\ One(ts[y], "sep")
       /\ LET ss == Ch(The(ts[y], "sep"), "s") IN
          /\ Len(ss) = Len(segs[x])
          /\ \A i \in 1..Len(ss) : IsC(ss[i], "v", Clean(segs[x][i]))
          /\ verbose => LET off == Offsets(segs[x]) IN
                        /\ \A i \in 1..Len(ss) : /\ Is(ss[i], "id", ToString(i - 1)) /\ Is(ss[i], "start", ToString(off[i]))
                                                 /\ Is(ss[i], "stop", ToString(off[i + 1]))
                        /\ One(ts[y], "raw") /\ IsC(The(ts[y], "raw"), "value", Clean(D.texts[x].cps))

\* A value of a field as an attribute of the node.
SimpleOk(fd, v, at) ==
  CASE v.k = "int" -> at.s = v.s
    [] v.k = "bool" -> at.s = v.s
    [] v.k = "float" -> at.f = v.s
    [] v.k = "str" -> at.c = Clean(v.e)
    [] v.k \in {"bytes", "ext"} -> at.b = v.s
    [] v.k = "doc" -> at.d = v.s
    [] v.k = "ref" -> at.s = ToString(v.e[1])
    [] OTHER -> FALSE
Simple == {"int", "bool", "float", "str", "bytes", "ext", "doc", "ref"}
NodeOk(D, L, i, el, id, nums, docid, verboseSpans) ==
  LET F == 1..Len(L.fields)
      val(j) == L.cols[j][i]
      named(t, j) == SelectSeq(el.ch, LAMBDA x : x.t = t /\ IsC(x, IF t = "t" THEN "key" ELSE "name", Clean(L.fields[j].nc)))
      target(j) == Clean(D.layers[LayerAt(D, L.fields[j])].nc)
      refers(s, j, k) == s \in {target(j) \o <<46>> \o Digits(k), docid \o target(j) \o <<46>> \o Digits(k)}
      \* a simple value is an attribute, or, where the name does not permit it, an element of its own
      simple == {j \in F : val(j).k \in Simple}
      attrs == {j \in simple : Has(el, L.fields[j].f)}
      elems == {j \in simple \ attrs : ~IsName(L.fields[j].nc)}
  IN /\ IsC(el, "xml:id", docid \o id)
     /\ Len(el.at) = 1 + Cardinality(attrs)
     /\ simple = attrs \cup elems
     /\ Len(SelectSeq(el.ch, LAMBDA x : x.t \in {"d", "a"})) = Cardinality({j \in F : val(j).k \in {"span", "nspan", "refs"}}) + Cardinality(elems)
     /\ \A j \in F :
          LET v == val(j) IN
          /\ j \in attrs => SimpleOk(L.fields[j], v, At(el, L.fields[j].f))
          /\ j \in elems => LET d == named("d", j) IN Len(d) = 1 /\ Has(d[1], "value") /\ SimpleOk(L.fields[j], v, At(d[1], "value"))
          /\ v.k = "span" =>
               LET d == named("d", j)
                   num == nums[TextAt(D, L.fields[j])] IN
               /\ Len(d) = 1 /\ Is(d[1], "from", ToString(num[v.e[1]])) /\ Is(d[1], "until", ToString(num[v.e[2]]))
               /\ verboseSpans => LET t == named("t", j) IN
                    Len(t) = 1 /\ IsC(t[1], "value", Clean(SubSeq(D.texts[TextAt(D, L.fields[j])].cps, v.e[1] + 1, v.e[2])))
          /\ v.k = "nspan" =>
               LET d == named("d", j) IN
               Len(d) = 1 /\ Has(d[1], "from") /\ Has(d[1], "to") /\ refers(At(d[1], "from").c, j, v.e[1]) /\ refers(At(d[1], "to").c, j, v.e[2])
          /\ v.k = "refs" =>
               LET a == named("a", j) IN
               Len(a) = 1 /\ Len(a[1].ch) = Len(v.e) /\ \A q \in 1..Len(v.e) : a[1].ch[q].t = "e" /\ Is(a[1].ch[q], "v", ToString(v.e[q]))
LayersOk(D, el, nums, docid, verboseSpans) ==
  LET ls == Ch(el, "layer") IN
  /\ Len(ls) = Len(D.layers)
  /\ \A k \in 1..Len(ls) : LET L == D.layers[k] ns == Ch(ls[k], "n") IN
       /\ IsC(ls[k], "name", Clean(L.nc)) /\ Len(ns) = L.n
       /\ \A i \in 1..L.n : NodeOk(D, L, i, ns[i], Clean(L.nc) \o <<46>> \o Digits(i - 1), nums, docid, verboseSpans)

\* opts: idc (code points), verbose, spans
XmlBad(D, root, opts) ==
  LET bs == [x \in 1..Len(D.texts) |-> Sorted(Bounds(D, x))]
      segs == [x \in 1..Len(D.texts) |-> SegsOf(D.texts[x].cps, bs[x])]
      nums == [x \in 1..Len(D.texts) |-> Number(bs[x])]
      docid == IF opts.idc = <<>> THEN <<>> ELSE Clean(opts.idc) \o <<46>>
  IN IF root.t # "document" \/ ~\A t \in {"props", "schema", "texts", "layers"} : One(root, t) THEN {"C24.parts"} ELSE
     (IF (opts.idc = <<>> /\ ~Has(root, "xml:id")) \/ (opts.idc # <<>> /\ IsC(root, "xml:id", Clean(opts.idc))) THEN {} ELSE {"C24.id"})
     \cup (IF PropsOk(D, The(root, "props")) THEN {} ELSE {"C24.props"})
     \cup (IF SchemaOk(D, The(root, "schema")) THEN {} ELSE {"C24.schema"})
     \cup (IF TextsOk(D, The(root, "texts"), segs, opts.verbose) THEN {} ELSE {"C24.texts"})
     \cup (IF LayersOk(D, The(root, "layers"), nums, docid, opts.spans) THEN {} ELSE {"C24.layers"})
=============================================================================
