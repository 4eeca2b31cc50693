----------------------------- MODULE JudgeLayers -----------------------------
(* Validates recorded editing histories of the real code against Layers: one *)
(* state per recorded step. Each step must be one of the outcomes the        *)
(* specification allows in the state before it, and the state after it must  *)
(* be consistent; clauses name the property a deviation belongs to. After a  *)
(* deviation the walk goes on from what was observed, unless that is no      *)
(* consistent document any more.                                             *)
EXTENDS Layers, Json, IOUtils
CONSTANT SHARDS
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, l, s
jvars == <<c, l, s>>

Strip(L) == [lid |-> L.lid, name |-> L.name, fields |-> L.fields, order |-> L.order]
Strips(ls) == [i \in 1..Len(ls) |-> Strip(ls[i])]
Observe(nodes, post) ==
  LET old == Len(nodes)
      at(u) == {j \in 1..Len(post.chg) : post.chg[j].u = u}
  IN [u \in 1..post.n |->
        IF at(u) # {} THEN LET r == post.chg[CHOOSE j \in at(u) : TRUE] IN [own |-> r.own, vals |-> Fn(r.vals)]
        ELSE nodes[u]]
State(pre, texts, post) == [layers |-> Strips(post.layers), nodes |-> Observe(pre, post), lname |-> post.lname, texts |-> texts, broken |-> FALSE]

-----------------------------------------------------------------------------
(* consistency of what is observable of a layer, whatever happened before *)
Structure(t, post) ==
  LET L(i) == post.layers[i]
      I == 1..Len(post.layers)
      owned(lid) == {u \in 1..Len(t.nodes) : t.nodes[u].own = lid}
  IN {x \in
      { IF \A i \in I : L(i).len = Len(L(i).order) THEN "" ELSE "len",
        IF \A i \in I : L(i).first = (IF L(i).order = <<>> THEN 0 ELSE L(i).order[1]) THEN "" ELSE "first",
        IF \A i \in I : L(i).last = (IF L(i).order = <<>> THEN 0 ELSE L(i).order[Len(L(i).order)]) THEN "" ELSE "last",
        IF \A i \in I : \A j \in 1..Len(L(i).order) : L(i).idx[j] >= 0 /\ (j = 1 \/ L(i).idx[j] > L(i).idx[j - 1]) THEN "" ELSE "index",
        IF \A i \in I : L(i).at = L(i).order THEN "" ELSE "address",
        IF \A i \in I : L(i).stale = 0 THEN "" ELSE "stale",
        IF \A i \in I : L(i).inn /\ L(i).named THEN "" ELSE "member",
        IF \A i \in I : Cardinality(Range(L(i).order)) = Len(L(i).order) /\ 0 \notin Range(L(i).order) THEN "" ELSE "once",
        IF \A i \in I : owned(L(i).lid) = Range(L(i).order) THEN "" ELSE "owner" } : x # ""}

LayersOrdered(t) == {<<t.layers[i].lid, t.layers[i].name, t.layers[i].order>> : i \in 1..Len(t.layers)}
Owners(t) == [u \in 1..Len(t.nodes) |-> t.nodes[u].own]

Validating == {"add_kw", "add_many", "encode", "load", "is_valid"}
SchemaOps == {"add_field", "remove_field", "set", "unset"}

(* a step against the outcomes allowed for it *)
StepBad(op, e, pre, post) ==
  LET O == May(pre, op)
      M == {o \in O : o.res = e.res}
      got == Out(e.res, e.ret, post)
      like == {o \in M : LayersOrdered(o) = LayersOrdered(post) /\ Owners(o) = Owners(post)}
  IN IF M = {} THEN
       {IF op.op = "remove_layer" THEN "C23.verdict"
        ELSE IF op.op \in Validating THEN (IF e.res = "ok" THEN "C05.accepted" ELSE "C05.refused")
        ELSE IF e.res = "ok" THEN "C03.accepted"
        ELSE IF op.op \in SchemaOps \cup {"add_layer"} THEN "C04.refused" ELSE "C01.refused"}
     ELSE IF \E o \in M : o.layers = post.layers /\ o.nodes = post.nodes THEN
       IF got \in M THEN {} ELSE {IF op.op = "remove_field" THEN "C04.result" ELSE "C23.result"}
     ELSE IF op.op = "remove_layer" THEN {"C23.state"}
     ELSE IF op.op \in {"encode", "load"} THEN {"C08.state"}
     ELSE IF e.res = "err" THEN {"C03.state"}
     ELSE IF op.op \in {"nav", "view", "is_valid", "typeof", "decleq", "maintext"} THEN {IF op.op = "nav" THEN "C02.state" ELSE IF op.op = "view" THEN "C26.state" ELSE "C05.state"}
     ELSE IF like = {} THEN {IF op.op \in SchemaOps \cup {"add_layer"} THEN "C04.order" ELSE "C01.order"}
     ELSE {"C04.values"}

-----------------------------------------------------------------------------
(* answers of queries *)
IndexOf(o, u) == CHOOSE i \in 1..Len(o) : o[i] = u
NavBad(t, op, x) ==
  LET o == LayerOf(t, op.lid).order
      n == Len(o)
      lefts == [i \in 1..n |-> IF i = 1 THEN 0 ELSE o[i - 1]]
      rights == [i \in 1..n |-> IF i = n THEN 0 ELSE o[i + 1]]
      pairBad(p) ==
        LET i == IndexOf(o, p.a)
            j == IndexOf(o, p.b)
            seg == SubSeq(o, IF i < j THEN i ELSE j, IF i < j THEN j ELSE i)
        IN {y \in {
             IF p.it = seg THEN "" ELSE "C02.iter_span",
             IF p.ok = (i <= j) THEN "" ELSE "C02.nodespan-order",
             IF ~p.ok \/ i > j \/ (p.lst = seg /\ p.tolist = seg /\ p.direct = seg) THEN "" ELSE "C02.nodespan",
             IF ~p.ok \/ i > j \/ p.len = Len(seg) THEN "" ELSE "C02.nodespan-len",
             IF ~p.ok \/ i > j \/ (p.first = p.a /\ p.last = p.b) THEN "" ELSE "C02.nodespan-ends",
             IF ~p.ht THEN "" ELSE
               LET a == t.nodes[p.a].vals["text"].e[1]
                   b == t.nodes[p.b].vals["text"].e[2]
               IN IF p.ts = <<a, b>> /\ p.text = FoldSeq(LAMBDA ch, acc : acc \o ch, "", SubSeq(x.main, a + 1, b)) THEN "" ELSE "C02.nodespan-text"
           } : y # ""}
  IN {y \in {IF x.left = lefts /\ x.left2 = lefts THEN "" ELSE "C02.left",
             IF x.right = rights /\ x.right2 = rights THEN "" ELSE "C02.right"} : y # ""}
     \cup UNION {pairBad(x.pairs[k]) : k \in 1..Len(x.pairs)}

ViewBad(t, op, e) ==
  LET x == e.x
      L == e.post.layers[LIndex(t, op.lid)]
      o == L.order
      pick(ix) == [k \in 1..Len(ix) |-> o[ix[k]]]
      slice(q) == SelectSeq([k \in 1..Len(o) |-> [u |-> o[k], i |-> L.idx[k]]],
                            LAMBDA r : r.i >= q.a /\ r.i < q.b /\ (r.i - q.a) % q.st = 0)
      F == Fields(L.fields)
      val(u, f) == IF f \in DOMAIN t.nodes[u].vals THEN t.nodes[u].vals[f] ELSE NoVal
      col(f) == [k \in 1..Len(o) |-> val(o[k], f)]
      fvBad(q) == ~(q.r = col(q.f) /\ q.lst = col(q.f) /\ q.nl = col(q.f) /\ q.at = col(q.f) /\ q.len = Len(o)
                    /\ (Len(o) = 0 \/ q.sp = col(q.f)) /\ q.dt = FieldOf(L.fields, q.f))
      tabBad(q) ==
        \/ (q.refs \/ q.want # <<>>) /\ q.rows # Len(o)
        \/ q.cols # q.want \o (IF q.refs THEN <<"__ref">> ELSE <<>>)
        \/ q.refs /\ q.ref # o
        \/ \E j \in 1..Len(q.cells) : q.cells[j].r # col(q.cells[j].f)
        \/ \E j \in 1..Len(q.spans) : q.spans[j].r # [k \in 1..Len(o) |->
              LET v == val(o[k], q.spans[j].f) IN
              IF v.k # "tspan" THEN "-" ELSE FoldSeq(LAMBDA ch, acc : acc \o ch, "", SubSeq(q.main, v.e[1] + 1, v.e[2]))]
  IN {y \in {
      IF \A k \in 1..Len(x.sl) : x.sl[k].r = [j \in 1..Len(slice(x.sl[k])) |-> slice(x.sl[k])[j].u] THEN "" ELSE "C26.layer-slice",
      IF \A k \in 1..Len(x.nl) : x.nl[k].r = pick(x.nl[k].ix) /\ Range(x.nl[k].t) = F THEN "" ELSE "C26.list-slice",
      IF \A k \in 1..Len(x.ix) : x.ix[k].r = pick(x.ix[k].ix) /\ Range(x.ix[k].t) = F THEN "" ELSE "C26.list-indices",
      IF x.tolist = o /\ x.nlist = o THEN "" ELSE "C26.to_list",
      IF o = <<>> \/ (x.n1 = o[1] /\ x.n2 = o[Len(o)]) THEN "" ELSE "C26.ends",
      IF \A k \in 1..Len(x.fv) : ~fvBad(x.fv[k]) THEN "" ELSE "C26.field-view",
      IF \A k \in 1..Len(x.tab) : ~tabBad(x.tab[k]) THEN "" ELSE "C26.table" } : y # ""}

IsValidBad(t, op, ret) ==
  LET v == Check(t, LayerOf(t, op.lid).fields, t.nodes[op.n].vals) IN
  IF v = "y" /\ ret # "T" THEN {"C05.invalid"} ELSE IF v = "n" /\ ret # "F" THEN {"C05.valid"} ELSE {}

\* the type inferred for a value has the value's kind and accepts it; for integers the smaller type if asked for it
KindOf(v, want32) == CASE v.k = "int" -> IF want32 /\ v.w <= 32 THEN {"i32"} ELSE {"i64"}
                       [] v.k = "float" -> {"f64"} [] v.k = "bool" -> {"i1"} [] v.k = "str" -> {"str"} [] v.k = "bytes" -> {"bin"}
                       [] v.k = "node" -> {"noderef"} [] v.k = "nspan" -> {"nodespan"} [] v.k = "list" -> {"noderef_array"} [] v.k = "tspan" -> {"span"}
                       [] OTHER -> {}
TypeofBad(t, op, e) ==
  IF KindOf(op.v, op.want32) = {} \/ (op.v.k = "int" /\ op.v.w > 64) THEN {}
  ELSE LET nodes == IF op.v.k \in {"node", "nspan", "list"} THEN op.v.e ELSE <<>>
           owned == \A i \in 1..Len(nodes) : nodes[i] > 0 /\ t.nodes[nodes[i]].own > 0
           one == owned /\ Cardinality({t.nodes[nodes[i]].own : i \in 1..Len(nodes)}) = 1
       IN IF op.v.k \in {"node", "nspan", "list"} /\ ~one THEN {}      \* nothing to refer to, or several layers
          ELSE IF e.res = "ok" /\ e.x.t \in KindOf(op.v, op.want32)
                  /\ (op.v.k \in {"node", "nspan", "list"} => e.x.a = t.lname[t.nodes[nodes[1]].own])
                  /\ (op.v.k = "tspan" => e.x.a = op.v.s) THEN {} ELSE {"C05.typeof"}

EventBad(pre, e, post) ==
  LET op == e.op
      struct == Structure(post, e.post)
      query == op.op \in {"nav", "view", "is_valid", "typeof", "decleq", "maintext"}
      pk == IF op.op = "compact" \/ (op.op = "encode" /\ e.res = "ok")
            THEN IF \A i \in 1..Len(e.post.layers) : (op.op = "encode" \/ e.post.layers[i].lid = op.lid) =>
                       e.post.layers[i].idx = [j \in 1..Len(e.post.layers[i].order) |-> j - 1]
                 THEN {} ELSE {IF op.op = "compact" THEN "C01.compact" ELSE "C08.index"}
            ELSE {}
  IN {"C01." \o x : x \in struct} \cup (IF e.res = "err" THEN {"C03." \o x : x \in struct} ELSE {})
     \cup (IF op.op = "remove_layer" THEN {"C23." \o x : x \in struct} ELSE {})
     \cup (IF op.op = "encode" THEN {"C08." \o x : x \in struct} ELSE {})
     \cup pk
     \cup (IF op.op = "load" /\ e.res = "ok" THEN
              (IF "n" = CheckDoc(pre, FALSE, TRUE) THEN {"C05.accepted"} ELSE {})
           ELSE IF query /\ e.res = "err" /\ op.op # "typeof" THEN {IF op.op = "nav" THEN "C02.raised" ELSE IF op.op = "view" THEN "C26.raised" ELSE IF op.op = "maintext" THEN "C03.maintext" ELSE "C05.raised"}
           ELSE IF op.op = "load" THEN StepBad([op EXCEPT !.op = "encode"], e, pre, post)
           ELSE StepBad(op, IF query THEN [e EXCEPT !.ret = "-", !.res = "ok"] ELSE e, pre, post))
     \cup (IF ~query \/ (e.res = "err" /\ op.op # "typeof") \/ struct \cap {"once", "owner"} # {} THEN {}
           ELSE CASE op.op = "nav" -> NavBad(post, op, e.x)
                  [] op.op = "view" -> ViewBad(post, op, e)
                  [] op.op = "maintext" -> IF e.x.refused /\ e.x.same /\ e.x.before = e.x.after THEN {} ELSE {"C03.maintext"}
                  [] op.op = "decleq" -> (IF \A i \in 1..Len(e.x.a) : \A j \in 1..Len(e.x.b) :
                                               LET same == e.x.a[i] = e.x.b[j] IN e.x.eq[i][j] = same /\ e.x.ne[i][j] = ~same /\ e.x.hashed[i][j] = same
                                            THEN {} ELSE {"C05.equal"})
                  [] op.op = "typeof" -> TypeofBad(post, op, e)
                  [] OTHER -> IsValidBad(post, op, e.ret))

-----------------------------------------------------------------------------
Start(k) == State(<<>>, Range(Cases[k].out.start.texts), Cases[k].out.start.post)
Ev(k) == Cases[k].out.ev
JInit == c \in 1..SHARDS /\ l = 1 /\ s = IF c <= Len(Cases) THEN Start(c) ELSE <<>>
Step == /\ c <= Len(Cases) /\ l <= Len(Ev(c))
        /\ LET e == Ev(c)[l]
               texts == IF e.op.op \in {"load", "add_text"} /\ e.res = "ok" THEN Range(e.op.texts) ELSE s.texts
               post == State(s.nodes, texts, e.post)
           IN IF s.broken THEN s' = s
              ELSE /\ \A b \in EventBad([s EXCEPT !.lname = post.lname], e, post) : PrintT(<<"BAD", c, l, b>>)
                   /\ s' = [post EXCEPT !.broken = Structure(post, e.post) \cap {"once", "owner"} # {}]
        /\ l' = l + 1 /\ c' = c
NextCase == /\ c <= Len(Cases) /\ l > Len(Ev(c))
            /\ c' = c + SHARDS /\ l' = 1
            /\ s' = IF c + SHARDS <= Len(Cases) THEN Start(c + SHARDS) ELSE <<>>
JNext == Step \/ NextCase
=============================================================================
