------------------------------- MODULE Dumper -------------------------------
(***************************************************************************)
(* Dumping: from a document to the events that say the same.               *)
(*                                                                         *)
(* A document is <<header>> \o nodes; nodes refer to each other by number, *)
(* and the first is the root.                                              *)
(***************************************************************************)
EXTENDS Tags

HeaderOf(D) == D[1]
Nodes(D) == Tail(D)
Kids(node) == IF node.k = "NS" THEN <<>> ELSE SubSeq(node.n, 2, Len(node.n))

(* A depth-first walk along all references, entering each node once: the
   nodes in the order in which they are met for the second time.
   seen: how often each node has been met; todo: references still to follow *)
WalkFrom[t \in Any, todo \in Any, seen \in Any, again \in Any] ==
  IF todo = <<>> THEN again
  ELSE LET i == Head(todo) IN
       WalkFrom[t, IF seen[i] = 0 THEN Kids(t[i]) \o Tail(todo) ELSE Tail(todo),
                [seen EXCEPT ![i] = @ + 1], IF seen[i] = 1 THEN Append(again, i) ELSE again]
Shared(t) == WalkFrom[t, <<1>>, [i \in 1..Len(t) |-> 0], <<>>]

Digits(i) == IF i < 10 THEN <<48 + i>> ELSE IF i < 100 THEN <<48 + (i \div 10), 48 + (i % 10)>>
             ELSE IF i < 1000 THEN <<48 + (i \div 100), 48 + ((i \div 10) % 10), 48 + (i % 10)>>
             ELSE <<48 + (i \div 1000), 48 + ((i \div 100) % 10), 48 + ((i \div 10) % 10), 48 + (i % 10)>>
Padded(s) == IF Len(s) = 1 THEN <<48, 48>> \o s ELSE IF Len(s) = 2 THEN <<48>> \o s ELSE s
AnchorName(i) == <<105, 100>> \o Padded(Digits(i))

Ev(k, s, n) == Tok(k, <<>>, s, n)

(* The default tag goes without saying *)
Implicit(node) == IF node.s[1] = <<DefaultOf(node.k)>> THEN 1 ELSE 0

Opening(node, anchor) ==
  CASE node.k = "NS" -> Ev("SCALAR", <<anchor, node.s[1], node.s[2]>>, <<Implicit(node), Implicit(node), node.n[1]>>)
    [] node.k = "NQ" -> Ev("SEQ", <<anchor, node.s[1]>>, <<Implicit(node), node.n[1]>>)
    [] OTHER -> Ev("MAP", <<anchor, node.s[1]>>, <<Implicit(node), node.n[1]>>)

(* todo: references, and 0 and -1 for the end of a sequence or a mapping *)
EventsFrom[t \in Any, names \in Any, todo \in Any, written \in Any, out \in Any] ==
  IF todo = <<>> THEN out
  ELSE LET i == Head(todo) IN
       IF i <= 0 THEN EventsFrom[t, names, Tail(todo), written, Append(out, Ev(IF i = 0 THEN "SEQE" ELSE "MAPE", <<>>, <<>>))]
       ELSE IF i \in written THEN EventsFrom[t, names, Tail(todo), written, Append(out, Ev("ALIAS", <<names[i][1]>>, <<>>))]
       ELSE EventsFrom[t, names,
                       (CASE t[i].k = "NS" -> <<>> [] t[i].k = "NQ" -> Append(Kids(t[i]), 0) [] OTHER -> Append(Kids(t[i]), -1)) \o Tail(todo),
                       written \cup {i}, Append(out, Opening(t[i], names[i]))]

Names(t) == LET s == Shared(t) IN
            FoldLeft(LAMBDA names, j : [names EXCEPT ![s[j]] = <<AnchorName(j)>>], [i \in 1..Len(t) |-> <<>>], [j \in 1..Len(s) |-> j])

DocumentEvents(D) ==
  LET h == HeaderOf(D) IN
  <<Ev("DOC", h.s, <<h.n[1], h.n[3], h.n[4], h.n[5]>>)>>
    \o EventsFrom[Nodes(D), Names(Nodes(D)), <<1>>, {}, <<>>]
    \o <<Ev("DOCE", <<>>, <<h.n[2]>>)>>

----------------------------------------------------------------------------
(* What loading gives back: the nodes reachable, in the order of reading *)
OrderFrom[t \in Any, todo \in Any, seen \in Any, out \in Any] ==
  IF todo = <<>> THEN out
  ELSE LET i == Head(todo) IN
       IF i \in seen THEN OrderFrom[t, Tail(todo), seen, out]
       ELSE OrderFrom[t, Kids(t[i]) \o Tail(todo), seen \cup {i}, Append(out, i)]
ReadingOrder(t) == OrderFrom[t, <<1>>, {}, <<>>]

(* No tag, and the tag "!", stand for the default *)
Resolved(node) == IF node.s[1] \in {<<>>, <<<<33>>>>} THEN <<DefaultOf(node.k)>> ELSE node.s[1]

(* Nodes are compared by kind, tag, value and children *)
Content(t, order, node) ==
  LET number == [i \in {order[j] : j \in 1..Len(order)} |-> CHOOSE j \in 1..Len(order) : order[j] = i] IN
  [k |-> node.k, tag |-> Resolved(node), v |-> IF node.k = "NS" THEN node.s[2] ELSE <<>>,
   kids |-> [j \in 1..Len(Kids(node)) |-> number[Kids(node)[j]]]]
Canon(t) == LET order == ReadingOrder(t) IN [j \in 1..Len(order) |-> Content(t, order, t[order[j]])]

SameGraph(t, u) == Canon(t) = Canon(u)
=============================================================================
