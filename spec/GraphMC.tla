------------------------------ MODULE GraphMC ------------------------------
(* The queue and the stack algorithm over all small graphs with ordered     *)
(* child lists agree with the definitions of the traversals.                *)
EXTENDS Graph, TLC, Json
CONSTANTS N, L
VARIABLES kids, queue, bseen, bout, stack, dseen, dout, printed
vars == <<kids, queue, bseen, bout, stack, dseen, dout, printed>>
Nodes == 1..N
Lists == UNION {[1..k -> Nodes] : k \in 0..L}
Init == /\ kids \in [Nodes -> Lists]
        /\ queue = <<<<0, 1>>>> /\ bseen = {} /\ bout = <<>>
        /\ stack = <<1>> /\ dseen = {} /\ dout = <<>> /\ printed = FALSE
B == /\ queue # <<>>
     /\ LET d == Head(queue)[1]  n == Head(queue)[2] IN
        IF n \in bseen THEN queue' = Tail(queue) /\ UNCHANGED <<bseen, bout>>
        ELSE LET s == bseen \cup {n}
                 ch == SelectSeq(kids[n], LAMBDA c : c \notin s) IN
             /\ queue' = Tail(queue) \o [i \in 1..Len(ch) |-> <<d + 1, ch[i]>>]
             /\ bseen' = s /\ bout' = Append(bout, <<d, n>>)
     /\ UNCHANGED <<kids, stack, dseen, dout, printed>>
\* the top of the stack is its last element
D == /\ queue = <<>> /\ stack # <<>>
     /\ LET n == Last(stack)  rest == Front(stack) IN
        IF n \in dseen THEN stack' = rest /\ UNCHANGED <<dseen, dout>>
        ELSE LET s == dseen \cup {n} IN
             /\ stack' = rest \o Reverse(SelectSeq(kids[n], LAMBDA c : c \notin s))
             /\ dseen' = s /\ dout' = Append(dout, n)
     /\ UNCHANGED <<kids, queue, bseen, bout, printed>>
Fin == /\ queue = <<>> /\ stack = <<>> /\ ~printed /\ printed' = TRUE
       /\ PrintT(ToJson([cls |-> "model", kids |-> kids]))
       /\ UNCHANGED <<kids, queue, bseen, bout, stack, dseen, dout>>
Next == B \/ D \/ Fin
Inv ==
  /\ \A i \in 1..(Len(queue) - 1) : queue[i][1] <= queue[i + 1][1] /\ queue[i + 1][1] <= queue[1][1] + 1
  /\ (queue = <<>> => BfsOk(kids, 1, Nodes, bout))
  /\ IsPrefix(dout, Preorder(kids, 1))
  /\ (stack = <<>> => DfsOk(kids, 1, Nodes, dout))
=============================================================================
