------------------------------ MODULE Present ------------------------------
(* Presentation of document objects. Strings are sequences of characters,   *)
(* blanks are " " (NL: a line break). A table is                            *)
(*   [cap, hidx, hhead, head, rows]  rows: [labs, cells], a cell is         *)
(*   [alts, raw, nil]: the strings it stands for (one of alts), whether it  *)
(*   is shown as it is (and may be a link), whether it is the absent value. *)
(* Options: mr (rows), w (characters of a cell), dw (characters of a line), *)
(* 0: unlimited. Blanks between and within cells are not significant.       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
Blank == {" ", "NL"}
Sq(s) == SelectSeq(s, LAMBDA c : c \notin Blank)
Dots == <<".", ".", ".">>
Digit == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9">>
RECURSIVE Dec(_)
Dec(n) == IF n < 0 THEN <<"-">> \o Dec(-n) ELSE IF n < 10 THEN <<Digit[n + 1]>> ELSE Append(Dec(n \div 10), Digit[(n % 10) + 1])
RECURSIVE Joined(_, _)
Joined(ss, sep) == IF ss = <<>> THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Joined(Tail(ss), sep)

----------------------------------------------------------------------------
\* values as text: [k, s, nm, a, b, l], nodes [nm, id, nf]
NodeRepr(d) == IF d.nf = 0 THEN <<>> ELSE <<"N", "o", "d", "e", "<">> \o d.nm \o <<"#">> \o Dec(d.id) \o <<">">>
SpanRepr(v) == <<"s", "p", "a", "n", "(">> \o v.nm \o <<"[">> \o Dec(v.a) \o <<":">> \o Dec(v.b) \o <<"]", ")", " ", "=", " ">> \o v.s
NodeSpanRepr(v) == <<"N", "o", "d", "e", "S", "p", "a", "n", "[">> \o v.nm \o <<":", " ">> \o Dec(v.a)
                   \o <<" ", "t", "o", " ", "i", "n", "c", "l", ".", " ">> \o Dec(v.b) \o <<"]">> \o (IF v.s = <<>> THEN <<>> ELSE <<" ", "=", " ">> \o v.s)
ListRepr(l) == <<"[">> \o Joined([i \in 1..Len(l) |-> NodeRepr(l[i])], <<",", " ">>) \o <<"]">>
Names(l) == {l[i].nm : i \in 1..Len(l)}
\* what a cell may show for a value, before abridging
Show(v) ==
  CASE v.k = "none" -> {<<"N", "I", "L">>}
    [] v.k = "prim" -> {v.s}
    [] v.k = "span" -> {SpanRepr(v)}
    [] v.k = "node" -> {NodeRepr(v.l[1])}
    [] v.k = "nspan" -> {NodeSpanRepr(v)}
    [] v.k = "list" -> IF Len(v.l) < 2 THEN {ListRepr(v.l)}
                       ELSE {<<"[">> \o Dec(Len(v.l)) \o <<" ", "n", "o", "d", "e", "s", " ", "f", "r", "o", "m", " ", "l", "a", "y", "e", "r", ":", " ">>
                             \o Joined(o, <<",", " ">>) \o <<"]">> : o \in {x \in [1..Cardinality(Names(v.l)) -> Names(v.l)] : Range(x) = Names(v.l)}}

----------------------------------------------------------------------------
\* a cell of at most w characters, abridged in the middle if it is longer; the five characters of
\* the mark may be counted in any case
Whole(full, w) == w = 0 \/ Len(full) <= w
MayCut(full, w) == w # 0 /\ Len(full) > w - 5
Cut(full, k) == <<Sq(SubSeq(full, 1, k)), Sq(SubSeq(full, Len(full) - k + 1, Len(full)))>>
Shows(full, s, w) ==
  LET x == Sq(s) IN
  \/ Whole(full, w) /\ x = Sq(full)
  \/ MayCut(full, w) /\ \E k \in 1..((w - 5) \div 2) : x = Cut(full, k)[1] \o Dots \o Cut(full, k)[2]

At(out, p, s) == p + Len(s) - 1 <= Len(out) /\ \A i \in 1..Len(s) : out[p + i - 1] = s[i]
Ends(out, P, s) == {p + Len(s) : p \in {q \in P : At(out, q, s)}}
CellEnds(out, P, full, w) ==
  (IF Whole(full, w) THEN Ends(out, P, Sq(full)) ELSE {})
  \cup (IF MayCut(full, w) THEN UNION {LET c == Cut(full, k) IN Ends(out, Ends(out, Ends(out, P, c[1]), Dots), c[2]) : k \in 1..((w - 5) \div 2)} ELSE {})
AnyEnds(out, P, alts, w) == UNION {CellEnds(out, P, a, w) : a \in alts}

\* rows that are shown: all, or the first and last ones with a mark between
ShownRows(n, mr) == IF mr = 0 \/ n <= mr THEN [i \in 1..n |-> i]
                    ELSE LET h == mr \div 2 IN [i \in 1..(2 * h + 1) |-> IF i <= h THEN i ELSE IF i = h + 1 THEN 0 ELSE n - (2 * h + 1 - i)]
Strings(row, p, q, hidx) == (IF hidx THEN <<>> ELSE <<row.labs>>) \o [i \in 1..(q - p + 1) |-> row.cells[p + i - 1].alts]
GroupEnds(out, P, tb, opt, p, q) ==
  LET hs == (IF tb.hidx THEN <<>> ELSE <<<<"#">>>>) \o SubSeq(tb.head, p, q)
      H == IF tb.hhead THEN P
           ELSE LET E == FoldLeft(LAMBDA X, s : CellEnds(out, X, s, opt.w), P, hs) IN IF q < Len(tb.head) THEN Ends(out, E, <<"\\">>) ELSE E
  IN IF H = {} THEN {}
     ELSE FoldLeft(LAMBDA X, i : IF X = {} THEN {} ELSE IF i = 0 THEN Ends(out, X, Dots)
                                 ELSE FoldLeft(LAMBDA Y, alts : AnyEnds(out, Y, alts, opt.w), X, Strings(tb.rows[i], p, q, tb.hidx)),
                   H, ShownRows(Len(tb.rows), opt.mr))
RECURSIVE Groups(_, _, _, _, _)
Groups(out, P, tb, opt, p) ==
  IF p > Len(tb.head) THEN P
  ELSE UNION {LET E == GroupEnds(out, P, tb, opt, p, q) IN IF E = {} THEN {} ELSE Groups(out, E, tb, opt, q + 1) : q \in p..Len(tb.head)}
\* where a text rendering of the table that starts at one of P may end (out without blanks)
TableEnds(out, P, tb, opt) == Groups(out, CellEnds(out, P, tb.cap, opt.w), tb, opt, 1)
TextOk(out, tb, opt) == (Len(Sq(out)) + 1) \in TableEnds(Sq(out), {1}, tb, opt)

\* lines are wrapped at the display width, a line with one column may need more
Longest(S) == Max({0} \cup {Len(s) : s \in S})
Limit(tb, opt) ==
  LET cells == UNION {UNION {tb.rows[i].cells[j].alts : j \in 1..Len(tb.head)} : i \in 1..Len(tb.rows)} \cup ToSet(tb.head)
      wide == IF opt.w = 0 THEN Longest(cells) ELSE IF Longest(cells) > opt.w - 5 THEN opt.w ELSE Longest(cells)
      lab == IF tb.hidx THEN 0 ELSE 4 + Longest({<<"#">>} \cup UNION {tb.rows[i].labs : i \in 1..Len(tb.rows)})
      cap == IF opt.w = 0 THEN Len(tb.cap) ELSE opt.w
  IN Max({opt.dw, lab + wide + 4, cap})
LinesOk(lens, tb, opt) == opt.dw = 0 \/ \A i \in 1..Len(lens) : lens[i] <= Limit(tb, opt) + 2

----------------------------------------------------------------------------
\* HTML: [cap, head, rows, clean], rows [ell, cells], cells [s, href, em] after undoing the escapes
Lower(c) == CASE c = "W" -> "w" [] c = "I" -> "i" [] c = "K" -> "k" [] c = "D" -> "d" [] c = "A" -> "a" [] c = "T" -> "t" [] c = "P" -> "p" [] c = "E" -> "e" [] OTHER -> c
Urn == <<"u", "r", "n", ":">>
Wikidata == <<"w", "i", "k", "i", "d", "a", "t", "a", ":">>
Wikipedia == <<"w", "i", "k", "i", "p", "e", "d", "i", "a", ":">>
Https == <<"h", "t", "t", "p", "s", ":", "/", "/">>
WikiPath(name) == <<".">> \o name \o <<".", "o", "r", "g", "/", "w", "i", "k", "i", "/">>
Kind(s, nm) == Len(s) > 4 + Len(nm) /\ SubSeq(s, 1, 4) = Urn /\ \A i \in 1..Len(nm) : Lower(s[4 + i]) = nm[i]
Www == <<"w", "w", "w">>
\* the page a raw string names, <<>> if none
LinkOf(s) ==
  IF \E i \in 1..Len(s) : s[i] = "NL" THEN <<>>
  ELSE IF Kind(s, Wikidata) THEN Https \o Www \o WikiPath(SubSeq(Wikidata, 1, 8)) \o SubSeq(s, 14, Len(s))
  ELSE IF Kind(s, Wikipedia) THEN
    LET r == SubSeq(s, 15, Len(s)) IN
    IF \E i \in 1..Len(r) : r[i] = ":" THEN
      LET i == CHOOSE x \in 1..Len(r) : r[x] = ":" /\ \A y \in 1..(x - 1) : r[y] # ":"
      IN Https \o SubSeq(r, 1, i - 1) \o WikiPath(SubSeq(Wikipedia, 1, 9)) \o SubSeq(r, i + 1, Len(r))
    ELSE Https \o Www \o WikiPath(SubSeq(Wikipedia, 1, 9)) \o r
  ELSE <<>>
HtmlCellOk(c, x, opt) == /\ \E a \in c.alts : Shows(a, x.s, opt.w)
                         /\ x.em = c.nil
                         /\ x.href = (IF c.raw THEN LinkOf(CHOOSE a \in c.alts : TRUE) ELSE <<>>)
HtmlOk(h, tb, opt) ==
  LET shown == ShownRows(Len(tb.rows), opt.mr)  n == Len(tb.head) IN
  /\ h.clean
  /\ Shows(tb.cap, h.cap, 0) \/ Shows(tb.cap, h.cap, opt.w)
  /\ Len(h.head) = n + 1 /\ h.head[1].s = <<"#">>
  /\ \A i \in 1..n : HtmlCellOk([alts |-> {tb.head[i]}, raw |-> TRUE, nil |-> FALSE], h.head[i + 1], opt)
  /\ Len(h.rows) = Len(shown)
  /\ \A r \in 1..Len(shown) :
       IF shown[r] = 0 THEN h.rows[r].ell
       ELSE /\ ~h.rows[r].ell /\ Len(h.rows[r].cells) = n + 1
            /\ h.rows[r].cells[1].s \in tb.rows[shown[r]].labs
            /\ \A i \in 1..n : HtmlCellOk(tb.rows[shown[r]].cells[i], h.rows[r].cells[i + 1], opt)

\* predicates: a comparison shows field, comparison and value; a combination its parts, in order
Comparison(op) == CASE op = "eq" -> <<"=", "=">> [] op = "ne" -> <<"!", "=">> [] op = "lt" -> <<"<">> [] op = "le" -> <<"<", "=">> [] op = "gt" -> <<">">> [] op = "ge" -> <<">", "=">>
Within(x, s) == {i \in 1..(Len(s) - Len(x) + 1) : SubSeq(s, i, i + Len(x) - 1) = x}
Signs(s) == SelectSeq(s, LAMBDA ch : ch \in {"<", ">", "=", "!"})
RECURSIVE PredOk(_)
PredOk(p) ==
  IF p.op = "any" THEN Within(p.f, p.s) # {} /\ \A i \in 1..Len(p.vs) : Within(p.vs[i], p.s) # {}
  ELSE IF p.op = "not" THEN PredOk(p.l) /\ Within(p.l.s, p.s) # {} /\ Len(p.s) > Len(p.l.s)
  ELSE IF p.op \in {"and", "or"} THEN
    /\ PredOk(p.l) /\ PredOk(p.r)
    /\ \E i \in Within(p.l.s, p.s) : \E j \in Within(p.r.s, p.s) :
         /\ j >= i + Len(p.l.s)
         /\ LET rest == SubSeq(p.s, 1, i - 1) \o SubSeq(p.s, i + Len(p.l.s), j - 1) \o SubSeq(p.s, j + Len(p.r.s), Len(p.s)) IN
              IF p.op = "and" THEN Within(<<"n", "d">>, rest) # {} \/ Within(<<"&">>, rest) # {}
              ELSE Within(<<"r">>, rest) # {} \/ Within(<<"|">>, rest) # {}
  ELSE \E i \in Within(p.f, p.s) : \E j \in Within(p.vs[1], p.s) :
         j >= i + Len(p.f) /\ Signs(SubSeq(p.s, i + Len(p.f), j - 1)) = Comparison(p.op)
=============================================================================
