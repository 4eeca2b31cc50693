---------------------------- MODULE JudgePresent ----------------------------
(* C25: renderings of real objects.                                         *)
EXTENDS JudgeCases, Present
Tab(t) == [t EXCEPT !.rows = [i \in 1..Len(t.rows) |->
             [labs |-> ToSet(t.rows[i].labs),
              cells |-> [j \in 1..Len(t.rows[i].cells) |->
                          LET x == t.rows[i].cells[j] IN [alts |-> Show(x.v), raw |-> x.raw, nil |-> x.nil]]]]]
ShowBad(s, opt) ==
  LET tt == Tab(s.tt)  th == Tab(s.th) IN
  (IF TextOk(s.text, tt, opt) THEN {} ELSE {"C25.text"})
  \cup (IF LinesOk(s.lens, tt, opt) THEN {} ELSE {"C25.width"})
  \cup (IF ~s.ishtml \/ HtmlOk(s.html, th, opt) THEN {} ELSE {"C25.html"})
Title == Sq(<<"=", "=", "D", "o", "c", "u", "m", "e", "n", "t", "=", "=">>)
Pair(kv) == kv.k \o <<"=">> \o kv.v
Pairs(kvs) == Joined([i \in 1..Len(kvs) |-> Pair(kvs[i])], <<",">>)
DocRepr(d) == <<"D", "o", "c", "u", "m", "e", "n", "t", "(">> \o Dec(d.nl) \o <<"l", "a", "y", "e", "r", "s", ",">> \o Dec(d.nt) \o <<"t", "e", "x", "t", "s">>
              \o (IF d.props = <<>> THEN <<>> ELSE <<",">> \o Pairs(d.props)) \o <<")">>
FieldDecl(f) == <<"*">> \o f.n \o <<":">> \o f.t \o (IF f.o = <<>> THEN <<>> ELSE <<"[">> \o Pairs(f.o) \o <<"]">>)
Cat(ss) == Joined(ss, <<>>)
SchemaText(ls) == Cat([i \in 1..Len(ls) |-> <<"[">> \o ls[i].n \o <<"]">> \o Cat([j \in 1..Len(ls[i].f) |-> FieldDecl(ls[i].f[j])])])
DocBad(d, opt) ==
  LET out == Sq(d.text)  t1 == Tab(d.t1)  t2 == Tab(d.t2) IN
  (IF (Len(out) + 1) \in TableEnds(out, TableEnds(out, Ends(out, {1}, Title), t1, opt), t2, opt) THEN {} ELSE {"C25.document"})
  \cup (IF \A i \in 1..Len(d.lens) : LinesOk(<<d.lens[i]>>, t1, opt) \/ LinesOk(<<d.lens[i]>>, t2, opt) THEN {} ELSE {"C25.width"})
  \cup (IF Sq(d.repr) = Sq(DocRepr(d)) THEN {} ELSE {"C25.docrepr"})
  \cup (IF Sq(d.schema) = Sq(SchemaText(d.decl)) THEN {} ELSE {"C25.schema"})
\* options: a valid value is taken, an invalid one is refused and changes nothing
Least(n) == CASE n = "max_rows" -> 1 [] n = "max_columns" -> 1 [] n = "max_column_width" -> 7 [] n = "max_display_width" -> 11
Pos(n) == CASE n = "max_rows" -> 1 [] n = "max_columns" -> 2 [] n = "max_column_width" -> 3 [] n = "max_display_width" -> 4
OptionsOk(ops) == \A i \in 2..Len(ops) :
  LET e == ops[i]  valid == e.v = -1000 \/ e.v >= Least(e.n) IN
  /\ e.ok = valid
  /\ e.st = (IF valid THEN [ops[i - 1].st EXCEPT ![Pos(e.n)] = IF e.v = -1000 THEN -1 ELSE e.v] ELSE ops[i - 1].st)
\* debug output: every layer with its number of nodes, then its columns
RECURSIVE Follows(_, _, _)
Follows(out, p, pieces) ==
  IF pieces = <<>> THEN TRUE
  ELSE LET S == {q \in p..Len(out) : out[q] = pieces[1][1] /\ At(out, q, pieces[1])}
       IN S # {} /\ Follows(out, Min(S) + Len(pieces[1]), Tail(pieces))
DebugOk(d) ==
  /\ d.ok
  /\ \A i \in 1..Len(d.layers) :
       LET l == d.layers[i] IN
       Follows(d.out, 1, <<<<"[">> \o l.n \o <<"]">>, Dec(l.k)>> \o SelectSeq(l.f, LAMBDA s : s # <<>>))
PresentBad(cs) ==
  LET o == cs.out IN
  UNION {ShowBad(o.shows[i], o.opt) : i \in 1..Len(o.shows)}
  \cup UNION {DocBad(o.docs[i], o.opt) : i \in 1..Len(o.docs)}
  \cup (IF \A i \in 1..Len(o.reprs) : \E s \in Show(o.reprs[i].v) : s = o.reprs[i].s THEN {} ELSE {"C25.repr"})
  \cup (IF \A i \in 1..Len(o.texts) : LET t == o.texts[i] IN t.ok /\ t.h = <<"T", "e", "x", "t", ":", " ">> \o t.name /\ t.b = t.text THEN {} ELSE {"C25.texthtml"})
  \cup (IF \A i \in 1..Len(o.preds) : PredOk(o.preds[i]) THEN {} ELSE {"C25.predicate"})
  \cup (IF \A i \in 1..Len(o.debugs) : DebugOk(o.debugs[i]) THEN {} ELSE {"C25.debug"})
  \cup (IF o.same THEN {} ELSE {"C25.changed"})
  \cup (IF OptionsOk(o.ops) THEN {} ELSE {"C25.options"})
=============================================================================
