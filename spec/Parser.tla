------------------------------- MODULE Parser -------------------------------
(***************************************************************************)
(* The parser: from tokens to events.                                      *)
(*                                                                         *)
(*   toks  the next tokens of the scanner, terr the error it then raises   *)
(*         (NONE if there is none, or not known yet)                       *)
(*   ps    the state of the parser:                                        *)
(*           st state, sts states to return to, mks marks of the open      *)
(*           collections, td tag directives in force, i next token,        *)
(*           ev the event or error of the last step                        *)
(*                                                                         *)
(* Every step is a function of the state that returns the next state.      *)
(***************************************************************************)
EXTENDS Chars

VARIABLES toks, terr, ps

PsInit == [st |-> "StreamStart", sts |-> <<>>, mks |-> <<>>, td |-> <<>>, i |-> 1, ev |-> NONE]

Tk(i) == IF i <= Len(toks) THEN toks[i] ELSE terr
Kd(i) == IF i <= Len(toks) THEN toks[i].k ELSE "ERR"
Sm(t) == SubSeq(t.m, 1, 3)
Em(t) == SubSeq(t.m, 4, 6)

(* A step looks at most at this many tokens, apart from directives and document
   end markers: ", ? &a !t value" *)
AHEAD == 6
Enough(ts) == Len(SelectSeq(ts, LAMBDA t : t.k \notin {"VD", "TD", "DE"})) >= AHEAD

Some(x) == <<x>>
Nothing == <<>>

B(b) == IF b THEN 1 ELSE 0

(* The error of the scanner, when a token beyond it is needed *)
Stop(P) == [P EXCEPT !.st = "End", !.ev = terr]
PFail(P, ctx, cm, pr, pm) == [P EXCEPT !.st = "End", !.ev = Err("Parser", ctx, cm, pr, pm)]
Give(P, i, st, ev) == [P EXCEPT !.i = i, !.st = st, !.ev = ev]
(* ... and return to the enclosing state *)
GivePop(P, i, ev) == [P EXCEPT !.i = i, !.st = P.sts[Len(P.sts)], !.sts = SubSeq(P.sts, 1, Len(P.sts) - 1), !.ev = ev]
PopMark(P) == [P EXCEPT !.mks = SubSeq(P.mks, 1, Len(P.mks) - 1)]
TopMark(P) == P.mks[Len(P.mks)]
Call(P, st) == [P EXCEPT !.sts = Append(@, st)]

Scalar(anchor, tag, value, pi, qi, style, m) ==
  Tok("SCALAR", m, <<anchor, tag, value>>, <<B(pi), B(qi), style>>)
Empty(m) == Scalar(Nothing, Nothing, <<>>, TRUE, FALSE, 1, m \o m)

----------------------------------------------------------------------------
ParseStreamStart(P) ==
  IF Kd(1) = "ERR" THEN Stop(P)
  ELSE Give(P, 2, "ImplicitDocumentStart", Tok("SS", Tk(1).m, <<>>, Tk(1).n))

(* Directives: returns [i, ver, td, all, e] *)
DefaultTags == <<<<<<33>>, <<33>>>>,
                 <<<<33, 33>>, <<116, 97, 103, 58, 121, 97, 109, 108, 46, 111, 114, 103, 44, 50, 48, 48, 50, 58>>>>>>
HasHandle(td, h) == \E i \in 1..Len(td) : td[i][1] = h

Directives[i \in Any, ver \in Any, own \in Any, all \in Any] ==
  LET t == Tk(i)
      E(pr) == [i |-> i, ver |-> ver, own |-> own, all |-> all, e |-> Err("Parser", "", NOMARK, pr, Sm(t))]
  IN CASE Kd(i) = "ERR" -> [i |-> i, ver |-> ver, own |-> own, all |-> all, e |-> terr]
       [] Kd(i) = "VD" ->
            IF ver # <<>> THEN E("found duplicate %YAML directive")
            ELSE IF t.n[1] # 1 \/ t.n[2] \notin {1, 2} THEN E("found incompatible YAML document")
            ELSE Directives[i + 1, t.n, own, all]
       [] Kd(i) = "TD" ->
            IF HasHandle(all, t.s[1]) THEN E("found duplicate %TAG directive")
            ELSE Directives[i + 1, ver, Append(own, t.s), Append(all, t.s)]
       [] OTHER -> [i |-> i, ver |-> ver, own |-> own,
                    all |-> all \o SelectSeq(DefaultTags, LAMBDA d : ~HasHandle(all, d[1])), e |-> NONE]

Flat[td \in Any, i \in Any] == IF i > Len(td) THEN <<>> ELSE <<td[i][1], td[i][2]>> \o Flat[td, i + 1]

SkipDocumentEnds[i \in Any] == IF Kd(i) = "DE" THEN SkipDocumentEnds[i + 1] ELSE i

ParseDocumentStart(P, implicit) ==
  LET i == IF implicit THEN P.i ELSE SkipDocumentEnds[P.i]
      t == Tk(i)
  IN IF Kd(i) = "ERR" THEN Stop(P)
     ELSE IF implicit /\ Kd(i) \notin {"VD", "TD", "DS", "SE"}
     THEN [Give(Call(P, "DocumentEnd"), i, "BlockNode", Tok("DOC", Sm(t) \o Sm(t), <<>>, <<1, 0, 0, 0>>))
             EXCEPT !.td = @ \o SelectSeq(DefaultTags, LAMBDA d : ~HasHandle(P.td, d[1]))]
     ELSE IF Kd(i) = "SE"
     THEN Give(P, i + 1, "End", Tok("SE", t.m, <<>>, <<>>))
     ELSE LET d == Directives[i, <<>>, <<>>, P.td] IN
          IF d.e # NONE THEN [P EXCEPT !.st = "End", !.ev = d.e]
          ELSE IF Kd(d.i) # "DS"
          THEN PFail(P, "", NOMARK, "did not find expected <document start>", Sm(Tk(d.i)))
          ELSE [Give(Call(P, "DocumentEnd"), d.i + 1, "DocumentContent",
                     Tok("DOC", Sm(t) \o Em(Tk(d.i)), Flat[d.own, 1],
                         <<0, B(d.ver # <<>>), IF d.ver = <<>> THEN 0 ELSE d.ver[1], IF d.ver = <<>> THEN 0 ELSE d.ver[2]>>))
                  EXCEPT !.td = d.all]

ParseDocumentEnd(P) ==
  LET t == Tk(P.i) IN
  IF Kd(P.i) = "ERR" THEN Stop(P)
  ELSE LET explicit == t.k = "DE" IN
       [Give(P, IF explicit THEN P.i + 1 ELSE P.i, "DocumentStart",
             Tok("DOCE", Sm(t) \o (IF explicit THEN Em(t) ELSE Sm(t)), <<>>, <<B(~explicit)>>))
          EXCEPT !.td = <<>>]

----------------------------------------------------------------------------
(* Node properties: anchor and tag in either order.
   [i next token, an, tag (handle and suffix), m start mark, em end mark, tm tag mark] *)
Properties(i) ==
  LET a == Kd(i)
      b == Kd(i + 1)
      both == (a = "ANC" /\ b = "TAG") \/ (a = "TAG" /\ b = "ANC")
      n == IF both THEN 2 ELSE IF a \in {"ANC", "TAG"} THEN 1 ELSE 0
      at == IF a = "ANC" THEN i ELSE IF both THEN i + 1 ELSE 0
      tt == IF a = "TAG" THEN i ELSE IF both THEN i + 1 ELSE 0
  IN [i |-> i + n, an |-> IF at = 0 THEN Nothing ELSE Some(Tk(at).s[1]),
      tag |-> IF tt = 0 THEN Nothing ELSE Tk(tt).s,
      m |-> Sm(Tk(i)), em |-> IF n = 0 THEN Sm(Tk(i)) ELSE Em(Tk(i + n - 1)),
      tm |-> IF tt = 0 THEN NOMARK ELSE Sm(Tk(tt)), n |-> n]

(* The tag in full, as an option; UNDEFINED if the handle is *)
UNDEFINED == Some(<<-2>>)
Resolve(td, tag) ==
  IF tag = Nothing THEN Nothing
  ELSE IF tag[1] = <<>> THEN Some(tag[2])
  ELSE LET s == {i \in 1..Len(td) : td[i][1] = tag[1]} IN
       IF s = {} THEN UNDEFINED
       ELSE Some(td[CHOOSE i \in s : \A j \in s : i <= j][2] \o tag[2])

ParseNode(P, block, indentless) ==
  IF Kd(P.i) = "ERR" THEN Stop(P)
  ELSE IF Kd(P.i) = "ALI" THEN GivePop(P, P.i + 1, Tok("ALIAS", Tk(P.i).m, Tk(P.i).s, <<>>))
  ELSE
  LET r == Properties(P.i)
      tag == Resolve(P.td, r.tag)
      t == Tk(r.i)
      k == t.k
      implicit == tag = Nothing \/ tag = Some(<<>>)
      Coll(kind, st, style) ==
        Give(P, r.i, st, Tok(kind, r.m \o Em(t), <<r.an, tag>>, <<B(implicit), style>>))
  IN IF r.tag # Nothing /\ tag = UNDEFINED /\ ~(r.n = 1 /\ k = "ERR")
     THEN PFail(P, "while parsing a node", r.m, "found undefined tag handle", r.tm)
     ELSE IF k = "ERR" THEN Stop(P)
     ELSE IF indentless /\ k = "BEN" THEN Coll("SEQ", "IndentlessSequenceEntry", 1)
     ELSE IF k = "SC"
     THEN GivePop(P, r.i + 1,
                  Scalar(r.an, tag, t.s[1], (t.n[1] = 1 /\ tag = Nothing) \/ tag = Some(<<33>>),
                         tag = Nothing /\ t.n[1] # 1, t.n[1], r.m \o Em(t)))
     ELSE IF k = "FSS" THEN Coll("SEQ", "FlowSequenceFirstEntry", 2)
     ELSE IF k = "FMS" THEN Coll("MAP", "FlowMappingFirstKey", 2)
     ELSE IF block /\ k = "BSS" THEN Coll("SEQ", "BlockSequenceFirstEntry", 1)
     ELSE IF block /\ k = "BMS" THEN Coll("MAP", "BlockMappingFirstKey", 1)
     ELSE IF r.an # Nothing \/ tag # Nothing
     THEN GivePop(P, r.i, Scalar(r.an, tag, <<>>, implicit, FALSE, 1, r.m \o r.em))
     ELSE PFail(P, IF block THEN "while parsing a block node" ELSE "while parsing a flow node", r.m,
                "did not find expected node content", Sm(t))

ParseDocumentContent(P) ==
  IF Kd(P.i) = "ERR" THEN Stop(P)
  ELSE IF Kd(P.i) \in {"VD", "TD", "DS", "DE", "SE"} THEN GivePop(P, P.i, Empty(Sm(Tk(P.i))))
  ELSE ParseNode(P, TRUE, FALSE)

----------------------------------------------------------------------------
(* Entering a collection skips its first token and remembers where it is *)
Enter(P) == [P EXCEPT !.mks = Append(@, Sm(Tk(P.i))), !.i = @ + 1]

(* An entry, key or value that may be missing *)
Item(P, i, missing, next, emptyMark, block, indentless) ==
  IF Kd(i) = "ERR" THEN Stop(P)
  ELSE IF Kd(i) \in missing THEN Give(P, i, next, Empty(emptyMark))
  ELSE ParseNode([Call(P, next) EXCEPT !.i = i], block, indentless)

BlockSequenceEntry(P0, first) ==
  LET P == IF first THEN Enter(P0) ELSE P0
      t == Tk(P.i)
  IN CASE Kd(P.i) = "ERR" -> Stop(P)
       [] Kd(P.i) = "BEN" -> Item(P, P.i + 1, {"BEN", "BE"}, "BlockSequenceEntry", Em(t), TRUE, FALSE)
       [] Kd(P.i) = "BE" -> PopMark(GivePop(P, P.i + 1, Tok("SEQE", t.m, <<>>, <<>>)))
       [] OTHER -> PFail(P, "while parsing a block collection", TopMark(P), "did not find expected '-' indicator", Sm(t))

IndentlessSequenceEntry(P) ==
  LET t == Tk(P.i) IN
  CASE Kd(P.i) = "ERR" -> Stop(P)
    [] Kd(P.i) = "BEN" ->
         Item(P, P.i + 1, {"BEN", "KEY", "VAL", "BE"}, "IndentlessSequenceEntry", Em(t), TRUE, FALSE)
    [] OTHER -> GivePop(P, P.i, Tok("SEQE", Sm(t) \o Sm(t), <<>>, <<>>))

BlockMappingKey(P0, first) ==
  LET P == IF first THEN Enter(P0) ELSE P0
      t == Tk(P.i)
  IN CASE Kd(P.i) = "ERR" -> Stop(P)
       [] Kd(P.i) = "KEY" -> Item(P, P.i + 1, {"KEY", "VAL", "BE"}, "BlockMappingValue", Em(t), TRUE, TRUE)
       [] Kd(P.i) = "BE" -> PopMark(GivePop(P, P.i + 1, Tok("MAPE", t.m, <<>>, <<>>)))
       [] OTHER -> PFail(P, "while parsing a block mapping", TopMark(P), "did not find expected key", Sm(t))

BlockMappingValue(P) ==
  LET t == Tk(P.i) IN
  CASE Kd(P.i) = "ERR" -> Stop(P)
    [] Kd(P.i) = "VAL" -> Item(P, P.i + 1, {"KEY", "VAL", "BE"}, "BlockMappingKey", Em(t), TRUE, TRUE)
    [] OTHER -> Give(P, P.i, "BlockMappingKey", Empty(Sm(t)))

FlowSequenceEntry(P0, first) ==
  LET P == IF first THEN Enter(P0) ELSE P0
      i == IF ~first /\ Kd(P.i) = "FEN" THEN P.i + 1 ELSE P.i
      t == Tk(i)
      End == PopMark(GivePop(P, i + 1, Tok("SEQE", t.m, <<>>, <<>>)))
  IN IF Kd(P.i) = "ERR" THEN Stop(P)
     ELSE IF Kd(P.i) = "FSE" THEN End
     ELSE IF ~first /\ i = P.i
     THEN PFail(P, "while parsing a flow sequence", TopMark(P), "did not find expected ',' or ']'", Sm(t))
     ELSE CASE Kd(i) = "ERR" -> Stop(P)
            [] Kd(i) = "KEY" ->
                 Give(P, i + 1, "FlowSequenceEntryMappingKey", Tok("MAP", t.m, <<Nothing, Nothing>>, <<1, 2>>))
            [] Kd(i) = "FSE" -> End
            [] OTHER -> ParseNode([Call(P, "FlowSequenceEntry") EXCEPT !.i = i], FALSE, FALSE)

(* Note: the value indicator (or the end of the entry) is passed over together
   with a missing key, as in libyaml *)
FlowSequenceEntryMappingKey(P) ==
  LET t == Tk(P.i) IN
  CASE Kd(P.i) = "ERR" -> Stop(P)
    [] Kd(P.i) \in {"VAL", "FEN", "FSE"} -> Give(P, P.i + 1, "FlowSequenceEntryMappingValue", Empty(Em(t)))
    [] OTHER -> ParseNode(Call(P, "FlowSequenceEntryMappingValue"), FALSE, FALSE)

FlowValue(P, end, next) ==
  LET i == IF Kd(P.i) = "VAL" THEN P.i + 1 ELSE P.i IN
  IF Kd(P.i) = "ERR" \/ Kd(i) = "ERR" THEN Stop(P)
  ELSE IF i # P.i /\ Kd(i) \notin {"FEN", end}
  THEN ParseNode([Call(P, next) EXCEPT !.i = i], FALSE, FALSE)
  ELSE Give(P, i, next, Empty(Sm(Tk(i))))

FlowSequenceEntryMappingEnd(P) ==
  LET t == Tk(P.i) IN
  IF Kd(P.i) = "ERR" THEN Stop(P)
  ELSE Give(P, P.i, "FlowSequenceEntry", Tok("MAPE", Sm(t) \o Sm(t), <<>>, <<>>))

FlowMappingKey(P0, first) ==
  LET P == IF first THEN Enter(P0) ELSE P0
      i == IF ~first /\ Kd(P.i) = "FEN" THEN P.i + 1 ELSE P.i
      t == Tk(i)
      End == PopMark(GivePop(P, i + 1, Tok("MAPE", t.m, <<>>, <<>>)))
  IN IF Kd(P.i) = "ERR" THEN Stop(P)
     ELSE IF Kd(P.i) = "FME" THEN End
     ELSE IF ~first /\ i = P.i
     THEN PFail(P, "while parsing a flow mapping", TopMark(P), "did not find expected ',' or '}'", Sm(t))
     ELSE CASE Kd(i) = "ERR" -> Stop(P)
            [] Kd(i) = "KEY" ->
                 IF Kd(i + 1) = "ERR" THEN Stop(P)
                 ELSE IF Kd(i + 1) \in {"VAL", "FEN", "FME"}
                 THEN Give(P, i + 1, "FlowMappingValue", Empty(Sm(Tk(i + 1))))
                 ELSE ParseNode([Call(P, "FlowMappingValue") EXCEPT !.i = i + 1], FALSE, FALSE)
            [] Kd(i) = "FME" -> End
            [] OTHER -> ParseNode([Call(P, "FlowMappingEmptyValue") EXCEPT !.i = i], FALSE, FALSE)

FlowMappingEmptyValue(P) ==
  IF Kd(P.i) = "ERR" THEN Stop(P) ELSE Give(P, P.i, "FlowMappingKey", Empty(Sm(Tk(P.i))))

----------------------------------------------------------------------------
ParseStep(P) ==
  CASE P.st = "StreamStart" -> ParseStreamStart(P)
    [] P.st = "ImplicitDocumentStart" -> ParseDocumentStart(P, TRUE)
    [] P.st = "DocumentStart" -> ParseDocumentStart(P, FALSE)
    [] P.st = "DocumentContent" -> ParseDocumentContent(P)
    [] P.st = "DocumentEnd" -> ParseDocumentEnd(P)
    [] P.st = "BlockNode" -> ParseNode(P, TRUE, FALSE)
    [] P.st = "BlockSequenceFirstEntry" -> BlockSequenceEntry(P, TRUE)
    [] P.st = "BlockSequenceEntry" -> BlockSequenceEntry(P, FALSE)
    [] P.st = "IndentlessSequenceEntry" -> IndentlessSequenceEntry(P)
    [] P.st = "BlockMappingFirstKey" -> BlockMappingKey(P, TRUE)
    [] P.st = "BlockMappingKey" -> BlockMappingKey(P, FALSE)
    [] P.st = "BlockMappingValue" -> BlockMappingValue(P)
    [] P.st = "FlowSequenceFirstEntry" -> FlowSequenceEntry(P, TRUE)
    [] P.st = "FlowSequenceEntry" -> FlowSequenceEntry(P, FALSE)
    [] P.st = "FlowSequenceEntryMappingKey" -> FlowSequenceEntryMappingKey(P)
    [] P.st = "FlowSequenceEntryMappingValue" -> FlowValue(P, "FSE", "FlowSequenceEntryMappingEnd")
    [] P.st = "FlowSequenceEntryMappingEnd" -> FlowSequenceEntryMappingEnd(P)
    [] P.st = "FlowMappingFirstKey" -> FlowMappingKey(P, TRUE)
    [] P.st = "FlowMappingKey" -> FlowMappingKey(P, FALSE)
    [] P.st = "FlowMappingValue" -> FlowValue(P, "FME", "FlowMappingKey")
    [] P.st = "FlowMappingEmptyValue" -> FlowMappingEmptyValue(P)
    (* After the end, and after an error: the end, again and again *)
    [] P.st = "End" -> [P EXCEPT !.ev = Tok("SE", NOMARK \o NOMARK, <<>>, <<>>)]
=============================================================================
