------------------------------ MODULE Writing ------------------------------
(***************************************************************************)
(* Model of the whole way out and back: every sequence of events that the  *)
(* grammar allows, within the bounds, is emitted; the text is scanned and  *)
(* parsed, and must say the same.                                          *)
(***************************************************************************)
EXTENDS Whole, RoundTrip, Grammar, Json

CONSTANTS Theme,   \* what the events are about
          Length,  \* of the sequence of events
          Deep     \* length of values, where they vary

VARIABLES gr, said,  \* what may follow; what has been said
          ph, k,     \* emit, read, parse, done, wrong; events read back
          back,      \* what the tool tells of them, if the events are those of the tools
          cfg, es
Out == INSTANCE Emitter
Note == INSTANCE Notation
vars == <<tx, gr, said, ph, k, back, cfg, es, sc, toks, terr, ps, cs>>

----------------------------------------------------------------------------
(* The events to choose from *)
E_(kind, s, n) == Tok(kind, <<>>, s, n)
a_ == <<97>>
tag_ == <<33, 116>>
Long_ == <<116, 97, 103, 58, 121, 97, 109, 108, 46, 111, 114, 103, 44, 50, 48, 48, 50, 58, 105>>

Words(letters) == UNION {[1..n -> letters] : n \in 0..Deep}

ScalarValues ==
  CASE Theme = "structure" -> {<<>>, a_}
    [] Theme = "plain" -> Words({97, 32, 58, 35, 45, 44, 63})
    [] Theme = "breaks" -> Words({97, 32, 10, 39})
    [] Theme = "special" -> Words({97, 32, 10, 34, 92, 133, 9, 128512})
    [] Theme = "headers" -> {<<>>, a_, <<97, 10, 10>>}
    [] Theme = "tools" -> Words({92, 0, 10, 110, 38, 32, 62})
    [] OTHER -> {<<>>, a_}
ScalarStyles == CASE Theme = "structure" -> {0} [] Theme = "headers" -> {1, 4} [] Theme = "props" -> {1, 2} [] OTHER -> 1..5
ScalarFlags == CASE Theme = "tools" -> {<<1, 1>>, <<0, 0>>} [] Theme \in {"props", "plain"} -> {<<1, 1>>, <<1, 0>>, <<0, 1>>, <<0, 0>>} [] OTHER -> {<<1, 1>>}
Anchors_ == IF Theme \in {"props", "tools"} THEN {<<>>, <<a_>>} ELSE {<<>>}
Tags_ == IF Theme = "tools" THEN {<<>>, <<tag_>>} ELSE IF Theme = "props" THEN {<<>>, <<tag_>>, <<Long_>>, <<Bang>>} ELSE {<<>>}
(* A tag that would be left out must be allowed to be; "!" alone is written as it is *)
Sensible(e) == CASE Theme = "tools" -> e.k = "SCALAR" => e.n[1] = IF e.s[2] = <<>> THEN 1 ELSE 0
                 [] e.k = "SCALAR" -> ~(e.s[2] = <<>> /\ e.n[1] = 0 /\ e.n[2] = 0)
                 [] e.k \in {"SEQ", "MAP"} -> ~(e.s[2] = <<>> /\ e.n[1] = 0)
                 [] OTHER -> TRUE

Events ==
  LET scalars == {E_("SCALAR", <<a, t, v>>, <<f[1], f[2], s>>) : a \in Anchors_, t \in Tags_, v \in ScalarValues, f \in ScalarFlags, s \in ScalarStyles}
      collections == {E_(c, <<a, t>>, <<i, s>>) : c \in {"SEQ", "MAP"}, a \in Anchors_, t \in Tags_,
                                                 i \in CASE Theme = "props" -> {0, 1} [] Theme = "tools" -> {0} [] OTHER -> {1}, s \in IF Theme \in {"headers", "tools"} THEN {1} ELSE {1, 2}}
      documents == IF Theme = "headers"
                   THEN {E_("DOC", s, <<i, v, 1, 2>>) : s \in {<<>>, <<<<33, 97, 33>>, a_>>}, i \in {0, 1}, v \in {0, 1}}
                   ELSE {E_("DOC", <<>>, <<i, 0, 0, 0>>) : i \in IF Theme = "tools" THEN {0, 1} ELSE {1}}
      ends == {E_("DOCE", <<>>, <<i>>) : i \in IF Theme \in {"headers", "tools"} THEN {0, 1} ELSE {1}}
      aliases == IF Theme \in {"props", "tools"} THEN {E_("ALIAS", <<a_>>, <<>>)} ELSE {}
  IN {e \in scalars \cup collections \cup documents \cup ends \cup aliases : Sensible(e)}
       \cup {E_("SS", <<>>, <<1>>), E_("SE", <<>>, <<>>), E_("SEQE", <<>>, <<>>), E_("MAPE", <<>>, <<>>)}
ASSUME TLCSet(11, Events)
Chosen == TLCGet(11)

Settings ==
  LET base == [can |-> 0, ind |-> 2, wid |-> 80, uni |-> 1, br |-> 2, enc |-> 1] IN
  CASE Theme \in {"structure", "headers", "props"} -> {base, [base EXCEPT !.can = 1], [base EXCEPT !.ind = 5]}
    [] Theme = "special" -> {base, [base EXCEPT !.uni = 0]}
    [] Theme = "tools" -> {[can |-> 0, ind |-> Out!UNSET, wid |-> Out!UNSET, uni |-> 0, br |-> 0, enc |-> 0]}
    [] OTHER -> {base, [base EXCEPT !.can = 1], [base EXCEPT !.wid = 5, !.ind = 2], [base EXCEPT !.br = 3, !.ind = 3]}

----------------------------------------------------------------------------
TextOf(s) == MakeText([ch |-> s, fin |-> NONE, enc |-> IF s = <<>> THEN 0 ELSE 1])

Init == /\ cfg \in Settings /\ es = Out!EsInit(cfg) /\ gr = GrInit /\ said = <<>> /\ ph = "emit" /\ k = 0 /\ back = <<>>
        /\ tx = TextOf(<<>>) /\ sc = ScInit /\ toks = <<>> /\ terr = NONE /\ ps = PsInit /\ cs = CsInit

(* How many events it takes to come to the end *)
Missing(g) == CASE g = GrEnd -> 0 [] Head(g) = "stream" -> 2 [] Head(g) = "document" -> 1 [] Head(g) = "documentend" -> 2
                [] Head(g) = "root" -> 3
                [] OTHER -> 2 + 2 * 0 + Len(g) - 1 + Cardinality({i \in 1..Len(g) - 1 : g[i] = "value"})

Drain[E \in Any] == IF Out!Fine(E) /\ Out!Ready(E) THEN Drain[Out!EmitStep(E)] ELSE E

Quiet == UNCHANGED <<tx, sc, toks, terr, ps, cs, k, back, cfg>>
Emit(e) ==
  /\ ph = "emit" /\ gr # GrEnd
  /\ LET g == GrStep(gr, e.k) IN
     /\ g # GrBad /\ Len(said) + 1 + Missing(g) <= Length
     /\ gr' = g /\ said' = Append(said, e)
     /\ es' = Drain[[es EXCEPT !.q = Append(@, e)]]
     /\ ph' = IF Out!Fine(es') THEN "emit" ELSE "refused"
  /\ Quiet

TurnRound == /\ ph = "emit" /\ gr = GrEnd
             /\ tx' = TextOf(Out!Output(es)) /\ ph' = "read" /\ UNCHANGED <<gr, said, k, back, cfg, es, sc, toks, terr, ps, cs>>

Scan == /\ ph = "read"
        /\ LET R == WholeText IN toks' = R.ts /\ terr' = R.er
        /\ ph' = "parse" /\ UNCHANGED <<tx, gr, said, k, back, cfg, es, sc, ps, cs>>

Parse ==
  /\ ph = "parse"
  /\ LET P == ParseStep(ps)
         e == P.ev
     IN /\ ps' = P /\ k' = k + 1
        /\ back' = IF Theme = "tools" /\ e.k # "ERR" THEN Append(back, Note!LineOf(e)) ELSE back
        /\ ph' = IF k + 1 > Len(said) \/ ~Equivalent(cfg, said[k + 1], e, inp[1] = EOF) THEN "wrong"
                 ELSE IF e.k = "SE" THEN "done" ELSE "parse"
        \* The behaviour is replayed in the implementation
        /\ e.k = "SE" => PrintT("%%" \o ToJson([cfg |-> cfg, ops |-> said, text |-> Out!Output(es), back |-> back',
                                                 told |-> IF Theme = "tools" THEN [i \in 1..Len(said) |-> Note!LineOf(said[i])] ELSE <<>>]))
  /\ UNCHANGED <<tx, gr, said, cfg, es, sc, toks, terr, cs>>

Next == (\E e \in Chosen : Emit(e)) \/ TurnRound \/ Scan \/ Parse
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* Everything that is grammatical is accepted ... *)
Accepts == ph # "refused"
(* ... and nothing else *)
Sample(kind) == E_(kind, CASE kind = "SCALAR" -> <<<<>>, <<>>, a_>> [] kind \in {"SEQ", "MAP"} -> <<<<>>, <<>>>> [] kind = "ALIAS" -> <<a_>> [] OTHER -> <<>>,
                   CASE kind = "SCALAR" -> <<1, 1, 1>> [] kind \in {"SEQ", "MAP"} -> <<1, 1>> [] kind = "DOC" -> <<1, 0, 0, 0>> [] kind = "DOCE" -> <<1>> [] kind = "SS" -> <<1>> [] OTHER -> <<>>)
AllKinds == {"SS", "SE", "DOC", "DOCE", "SEQ", "SEQE", "MAP", "MAPE", "SCALAR", "ALIAS"}
Refuses == ph = "emit" /\ es.q = <<>> => \A kind \in AllKinds \ Possible(gr) : ~Out!Fine(Out!EmitStep([es EXCEPT !.q = <<Sample(kind)>>]))

(* No more is held back than looking ahead takes *)
Holds == ph = "emit" => Len(es.q) <= (IF es.q = <<>> THEN 0 ELSE Out!Wanted(es.q[1]))
AllOut == gr = GrEnd /\ ph = "emit" => es.q = <<>>

(* What is written is fit to be read *)
Clean == ph = "read" => \A i \in 1..Len(inp) - Len(PAD) : Allowed(inp[i])

(* What is read is what was said *)
SaysTheSame == ph # "wrong"
(* The notation says everything of the events of the tools, in one line *)
OneLine == Theme = "tools" /\ said # <<>> => LET e == said[Len(said)] IN Note!EventOf(Note!LineOf(e)) = e /\ \A c \in {10, 13} : ~Contains(Note!LineOf(e), c)
(* What was told and emitted is told the same when it is read, but for styles and markers *)
TellsTheSame == Theme = "tools" /\ ph \in {"parse", "done"} =>
  \A i \in 1..Len(back) : LET v == said[i]
                              w == Note!EventOf(back[i])
                          IN w.k = v.k /\ w.s = v.s
AtTheEnd == ph = "done" => k = Len(said)
=============================================================================
