----------------------------- MODULE PresentMC -----------------------------
(* A renderer as an algorithm (columns grouped greedily up to the display   *)
(* width, rows and cells abridged), on all small tables and options: what   *)
(* it renders is what Present allows, and rendering of other contents is    *)
(* told apart.                                                              *)
EXTENDS Present, TLC, Json
VARIABLES t, o, done
CONSTANT R, K
Lit(c, n) == [i \in 1..n |-> c]
Cell(c, n) == [alts |-> {Lit(c, n)}, raw |-> FALSE, nil |-> FALSE]
Widths == {1, 2, 7, 9}
Letters == <<"a", "b", "c", "d", "e", "f">>
Tables == {[cap |-> Lit("t", 3), hidx |-> hx, hhead |-> FALSE, head |-> [j \in 1..k |-> Lit(Letters[j], hw)],
            rows |-> [i \in 1..n |-> [labs |-> {Dec(i - 1)}, cells |-> [j \in 1..k |-> Cell(Letters[((i + j) % 6) + 1], w[j])]]]]
           : hx \in BOOLEAN, k \in 1..K, n \in 0..R, hw \in {1, 8}, w \in [1..K -> Widths]}
Opts == [mr : {0, 1, 2, 3}, w : {0, 7}, dw : {0, 11, 24}]
Init == t \in Tables /\ o \in Opts /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<t, o>>
        /\ PrintT(ToJson([cls |-> "model", n |-> Len(t.rows), k |-> Len(t.head), hw |-> Len(t.head[1]), hidx |-> t.hidx,
                          w |-> IF t.rows = <<>> THEN <<>> ELSE [j \in 1..Len(t.head) |-> Len(CHOOSE a \in t.rows[1].cells[j].alts : TRUE)], o |-> o]))
W == LET a == o.w IN IF a = 0 THEN 0 ELSE IF o.dw = 0 THEN a ELSE Min({a, o.dw})
Opt == [o EXCEPT !.w = W]
Abridge(s) == IF W = 0 \/ Len(s) <= W - 5 THEN s ELSE LET k == (W - 5) \div 2 IN SubSeq(s, 1, k) \o Lit(" ", 1) \o Dots \o Lit(" ", 1) \o SubSeq(s, Len(s) - k + 1, Len(s))
Text(c) == Abridge(CHOOSE a \in c.alts : TRUE)
Shown == ShownRows(Len(t.rows), o.mr)
Column(j) == <<Abridge(t.head[j])>> \o [i \in 1..Len(Shown) |-> IF Shown[i] = 0 THEN <<>> ELSE Text(t.rows[Shown[i]].cells[j])]
Wide(j) == Longest(ToSet(Column(j))) + 4
Lab == IF t.hidx THEN 0 ELSE 5
\* greedy groups as <<first, last>>
Step(gs, j) == LET g == gs[Len(gs)]
                   w == Lab + FoldLeft(LAMBDA a, i : a + Wide(i), 0, [i \in 1..(j - g[1] + 1) |-> g[1] + i - 1])
               IN IF o.dw # 0 /\ w > o.dw THEN Append(gs, <<j, j>>) ELSE [gs EXCEPT ![Len(gs)] = <<g[1], j>>]
Gs == FoldLeft(Step, <<<<1, 1>>>>, [i \in 1..(Len(t.head) - 1) |-> i + 1])
Line(idx, r, g) == (IF t.hidx THEN <<>> ELSE idx) \o FoldLeft(LAMBDA a, j : a \o Column(j)[r], <<>>, [i \in 1..(g[2] - g[1] + 1) |-> g[1] + i - 1])
GroupText(g) == Line(<<"#">>, 1, g) \o (IF g[2] < Len(t.head) THEN <<"\\">> ELSE <<>>)
                \o FoldLeft(LAMBDA a, i : a \o (IF Shown[i] = 0 THEN Dots ELSE Line(Dec(Shown[i] - 1), i + 1, g)), <<>>, [i \in 1..Len(Shown) |-> i])
Render == t.cap \o FoldLeft(LAMBDA a, g : a \o GroupText(g), <<>>, Gs)
Lens == [i \in 1..Len(Gs) |-> Lab + FoldLeft(LAMBDA a, j : a + Wide(j), 0, [x \in 1..(Gs[i][2] - Gs[i][1] + 1) |-> Gs[i][1] + x - 1])]
Inv == /\ TextOk(Render, t, Opt)
       /\ LinesOk(Lens, t, Opt)
       /\ (t.rows # <<>> /\ (o.mr = 0 \/ o.mr > 1)) => ~TextOk(Render, [t EXCEPT !.rows[1].cells[1] = Cell("z", 2)], Opt)
       /\ (Len(t.rows) > 1 /\ o.mr = 0) => ~TextOk(Render, [t EXCEPT !.rows = Tail(t.rows)], Opt)
=============================================================================
