----------------------------- MODULE Protocol -----------------------------
(***************************************************************************)
(* Model of the emitter being given anything: all sequences of at most      *)
(* Length events, in and out of place, right and wrong, until one is       *)
(* refused.                                                                *)
(***************************************************************************)
EXTENDS Grammar, Json

CONSTANT Length

VARIABLES es, hist,  \* the emitter; events given (which of the samples)
          gr, done   \* what the events processed allow; how many those are
Out == INSTANCE Emitter
vars == <<es, hist, gr, done>>
(* The text does not matter here *)
view == <<es.st, es.sts, es.q, es.ind, es.fl, es.er, gr>>

E_(kind, s, n) == Tok(kind, <<>>, s, n)
a_ == <<97>>
h_ == <<33, 97, 33>>
Right == <<E_("SS", <<>>, <<1>>), E_("SE", <<>>, <<>>), E_("DOC", <<>>, <<1, 0, 0, 0>>), E_("DOC", <<h_, a_>>, <<0, 1, 1, 1>>), E_("DOCE", <<>>, <<0>>),
          E_("SEQ", <<<<>>, <<>>>>, <<1, 1>>), E_("SEQE", <<>>, <<>>), E_("MAP", <<<<a_>>, <<>>>>, <<1, 2>>), E_("MAPE", <<>>, <<>>),
          E_("SCALAR", <<<<>>, <<>>, a_>>, <<1, 1, 0>>), E_("ALIAS", <<a_>>, <<>>)>>
Wrong == <<E_("DOC", <<>>, <<1, 1, 2, 0>>), E_("DOC", <<h_, a_, h_, a_>>, <<1, 0, 0, 0>>), E_("DOC", <<a_, a_>>, <<1, 0, 0, 0>>),
          E_("SCALAR", <<<<>>, <<>>, a_>>, <<0, 0, 0>>), E_("SCALAR", <<<<<<32>>>>, <<>>, a_>>, <<1, 1, 0>>), E_("ALIAS", <<<<>>>>, <<>>),
          E_("SEQ", <<<<<<>>>>, <<>>>>, <<1, 1>>), E_("MAP", <<<<>>, <<<<>>>>>>, <<0, 1>>)>>
Samples == Right \o Wrong

Init == es = Out!EsInit([can |-> 0, ind |-> 2, wid |-> 80, uni |-> 1, br |-> 2, enc |-> 1]) /\ hist = <<>> /\ gr = GrInit /\ done = 0

Drain[E \in Any] == IF Out!Fine(E) /\ Out!Ready(E) THEN Drain[Out!EmitStep(E)] ELSE E
GrAll(g, evs) == FoldLeft(LAMBDA x, e : IF x = GrBad THEN GrBad ELSE GrStep(x, e.k), g, evs)

Give(i) ==
  /\ Out!Fine(es) /\ Len(hist) < Length
  /\ LET E == Drain[[es EXCEPT !.q = Append(@, Samples[i])]]
         all == Append(hist, i)
         upto == Len(all) - Len(E.q)
         given(x, y) == [h \in 1..y - x + 1 |-> Samples[all[x + h - 1]]]
     IN /\ es' = E /\ hist' = all
        /\ done' = upto
        /\ gr' = IF Out!Fine(E) THEN GrAll(gr, given(done + 1, upto)) ELSE GrAll(gr, given(done + 1, upto - 1))
        /\ PrintT("%%" \o ToJson([ops |-> [h \in 1..Len(all) |-> Samples[all[h]]], er |-> E.er.x]))
Next == \E i \in 1..Len(Samples) : Give(i)
Spec == Init /\ [][Next]_vars

(* What has been processed is in place, and right *)
OnlyGrammatical == gr # GrBad
OnlyRight == Out!Fine(es) => \A i \in 1..done : hist[i] <= Len(Right)
(* What is refused is out of place, or wrong *)
Offending == ~Out!Fine(es) => hist[done] > Len(Right) \/ GrStep(gr, Samples[hist[done]].k) = GrBad
(* No more is held back than looking ahead takes *)
Holds == Out!Fine(es) /\ es.q # <<>> => Len(es.q) <= Out!Wanted(es.q[1])
=============================================================================
