------------------------------ MODULE Notation ------------------------------
(***************************************************************************)
(* The notation of events that the two tools of the test suites write and  *)
(* read: one line for each event.                                          *)
(*                                                                         *)
(*   LineOf(e)    the line that stands for e, as characters                  *)
(*   EventOf(l)  the event that line l stands for, as it is to be emitted   *)
(*                                                                         *)
(* It says nothing of directives, and nothing that counts of the style of  *)
(* collections.                                                            *)
(***************************************************************************)
EXTENDS Chars

LocalTok(k, s, n) == Tok(k, <<>>, s, n)

NAMES == [SS |-> <<43, 83, 84, 82>>, SE |-> <<45, 83, 84, 82>>, DOC |-> <<43, 68, 79, 67>>, DOCE |-> <<45, 68, 79, 67>>,
          SEQ |-> <<43, 83, 69, 81>>, SEQE |-> <<45, 83, 69, 81>>, MAP |-> <<43, 77, 65, 80>>, MAPE |-> <<45, 77, 65, 80>>,
          SCALAR |-> <<61, 86, 65, 76>>, ALIAS |-> <<61, 65, 76, 73>>]

SIGNS == <<58, 39, 34, 124, 62>>   \* of the styles: : ' " | >

(* Characters that stand for themselves only after a backslash, or as a letter *)
Letters == (92 :> 92) @@ (0 :> 48) @@ (8 :> 98) @@ (10 :> 110) @@ (13 :> 114) @@ (9 :> 116)
Guard(ch) == IF ch \in DOMAIN Letters THEN <<92, Letters[ch]>> ELSE <<ch>>
Guarded(s) == FoldLeft(LAMBDA a, ch : a \o Guard(ch), <<>>, s)

Properties(e) == (IF e.s[1] = <<>> THEN <<>> ELSE <<32, 38>> \o e.s[1][1])
                 \o (IF e.s[2] = <<>> THEN <<>> ELSE <<32, 60>> \o e.s[2][1] \o <<62>>)

LineOf(e) ==
  NAMES[e.k] \o
  CASE e.k = "DOC" -> (IF e.n[1] = 1 THEN <<>> ELSE <<32, 45, 45, 45>>)
    [] e.k = "DOCE" -> (IF e.n[1] = 1 THEN <<>> ELSE <<32, 46, 46, 46>>)
    [] e.k = "ALIAS" -> <<32, 42>> \o e.s[1]
    [] e.k = "SCALAR" -> Properties(e) \o <<32, SIGNS[e.n[3]]>> \o Guarded(e.s[3])
    [] e.k \in {"SEQ", "MAP"} -> Properties(e)
    [] OTHER -> <<>>

----------------------------------------------------------------------------
From(l, i) == SubSeq(l, i, Len(l))
Begins(l, w) == Len(l) >= Len(w) /\ SubSeq(l, 1, Len(w)) = w
(* The first place from i on where ch is, or just after the end *)
Until(l, i, ch) == LET at == {x \in i..Len(l) : l[x] = ch} IN IF at = {} THEN Len(l) + 1 ELSE CHOOSE x \in at : \A y \in at : x <= y

(* The properties from i on: [a anchor, t tag, i what follows] *)
Fields[l \in Any, i \in Any, a \in Any, t \in Any] ==
  IF Begins(From(l, i), <<32, 38>>)
  THEN LET e == Until(l, i + 2, 32) IN Fields[l, e, <<SubSeq(l, i + 2, e - 1)>>, t]
  ELSE IF Begins(From(l, i), <<32, 60>>)
  THEN LET e == Until(l, i + 2, 62) IN Fields[l, e + 1, a, <<SubSeq(l, i + 2, e - 1)>>]
  \* The style of a collection
  ELSE IF Begins(From(l, i), <<32, 91, 93>>) \/ Begins(From(l, i), <<32, 123, 125>>) THEN Fields[l, i + 3, a, t]
  ELSE [a |-> a, t |-> t, i |-> i]

Unguarded[s \in Any] ==
  LET e == Until(s, 1, 92) IN
  IF e >= Len(s) THEN s
  ELSE SubSeq(s, 1, e - 1) \o <<CHOOSE ch \in DOMAIN Letters : Letters[ch] = s[e + 1]>> \o Unguarded[From(s, e + 2)]

EventOf(l) ==
  LET f == Fields[l, 5, <<>>, <<>>]
      ks == {k \in DOMAIN NAMES : Begins(l, NAMES[k])}
  IN IF ks = {} THEN NONE
     ELSE LET k == CHOOSE k \in ks : TRUE IN
     CASE k = "SS" -> LocalTok(k, <<>>, <<1>>)
       [] k = "DOC" -> LocalTok(k, <<>>, <<IF Begins(From(l, 5), <<32, 45, 45, 45>>) THEN 0 ELSE 1, 0, 0, 0>>)
       [] k = "DOCE" -> LocalTok(k, <<>>, <<IF Begins(From(l, 5), <<32, 46, 46, 46>>) THEN 0 ELSE 1>>)
       [] k = "ALIAS" -> LocalTok(k, <<SubSeq(l, 7, Until(l, 7, 32) - 1)>>, <<>>)
       [] k \in {"SEQ", "MAP"} -> LocalTok(k, <<f.a, f.t>>, <<0, 1>>)
       [] k = "SCALAR" -> LET b == IF f.t = <<>> THEN 1 ELSE 0
                              style == CHOOSE x \in 1..5 : SIGNS[x] = l[f.i + 1]
                          IN LocalTok(k, <<f.a, f.t, Unguarded[From(l, f.i + 2)]>>, <<b, b, style>>)
       [] OTHER -> LocalTok(k, <<>>, <<>>)
=============================================================================
