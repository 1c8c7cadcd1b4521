----------------------------- MODULE InputTrace -----------------------------
(***************************************************************************)
(* Trace validation of the input side: every case is an input together     *)
(* with what the implementation delivered for it (tokens, events, or       *)
(* documents); it is accepted if the specification has that behaviour.     *)
(*                                                                         *)
(* The cases are validated one after another within lanes of LANE cases.   *)
(***************************************************************************)
EXTENDS Scanner, Parser, Composer, Observe

LANE == 500

VARIABLES n,      \* steps so far, in this lane
          ph,     \* phase: scan, parse, compose
          j,      \* observations matched
          k,      \* operations matched
          fin     \* the scanner has delivered its last token or raised its error
vars == <<tx, n, ph, j, k, fin, sc, toks, terr, ps, cs>>
view == <<tx, n>>

Case == Cases[tx]
Obs == Case.o
(* The operations of the session; none: as many as it takes to reach the end *)
Ops == Case.ops
Cmp == Range(Case.cmp)

Start(i) == IF Texts[i].en = 0 /\ Texts[i].rd # NONE THEN [ScInit EXCEPT !.k = "end"] ELSE ScInit

Blank(i) == /\ sc' = Start(i) /\ toks' = <<>> /\ terr' = NONE /\ fin' = FALSE
            /\ ps' = PsInit /\ cs' = CsInit /\ j' = 0 /\ k' = 0 /\ ph' = "scan"

Init == /\ tx \in {i \in 1..N : i % LANE = 1 \/ LANE = 1}
        /\ n = 0 /\ ph = "scan" /\ j = 0 /\ k = 0 /\ fin = FALSE
        /\ sc = Start(tx) /\ toks = <<>> /\ terr = NONE
        /\ ps = PsInit /\ cs = CsInit

Tick == n' = n + 1

Finish(verdict, why, exp) ==
  /\ IF verdict THEN TLCSet(1, TLCGet(1) + 1)
     ELSE /\ TLCSet(2, TLCGet(2) + 1)
          /\ PrintT("@@" \o ToJson([id |-> Case.id, at |-> j + 1, why |-> why, want |-> exp,
                                    got |-> IF j + 1 <= Len(Obs) THEN <<Obs[j + 1]>> ELSE <<>>]))
  /\ tx < N /\ tx % LANE # 0
  /\ tx' = tx + 1
  /\ Blank(tx + 1) /\ Tick

(* Match the steps ts with the next observations; last: nothing may follow *)
Matches(ts) == /\ j + Len(ts) <= Len(Obs)
               /\ \A i \in 1..Len(ts) : Same(ts[i], Obs[j + i], Cmp)
Over(ts) == j + Len(ts) = Len(Obs)

(* Reading ahead, the implementation may meet the error sooner *)
CutShort == rd # NONE /\ j + 1 <= Len(Obs) /\ Same(rd, Obs[j + 1], Cmp \cup {"x", "y"})
LastOp == k + 1 = Len(Ops)
Go(count, next) == j' = j + count /\ k' = k + 1 /\ tx' = tx /\ ph' = next /\ Tick

(* After the end, or an error, there are no more results *)
Ended(count) ==
  IF Ops = <<>> \/ LastOp
  THEN IF j + count = Len(Obs) THEN Finish(TRUE, "", <<>>) ELSE Finish(FALSE, "more than expected", <<>>)
  ELSE Go(count, "tail") /\ UNCHANGED <<fin, sc, toks, terr, ps, cs>>

ConsumeTo(ts, next, rest) ==
  IF Matches(ts)
  THEN IF LastOp THEN IF Over(ts) THEN Finish(TRUE, "", ts) ELSE Finish(FALSE, "more than expected", ts)
       ELSE Go(Len(ts), next) /\ rest
  ELSE IF CutShort THEN Ended(1)
  ELSE Finish(FALSE, "differs", ts)

Consume(ts, last, rest) ==
  IF last /\ Matches(ts) THEN Ended(Len(ts)) ELSE ConsumeTo(ts, ph, rest)

Internal == j' = j /\ k' = k /\ tx' = tx /\ Tick

----------------------------------------------------------------------------
Quiet == UNCHANGED <<fin, toks, terr, ps, cs>> /\ ph' = ph /\ Internal

(* The end of the tokens: an error, or the end of the stream *)
Raise(e) ==
  IF Case.mode = "scan" THEN Consume(<<e>>, TRUE, TRUE)
  ELSE /\ terr' = e /\ fin' = TRUE /\ ph' = "parse" /\ UNCHANGED <<sc, toks, ps, cs>> /\ Internal

DeliverToken ==
  /\ ph = "scan" /\ sc.k = "" /\ Ok(sc) /\ sc.q # <<>>
  /\ LET S == Settled(sc) IN
     /\ Ok(S) /\ Deliverable(S)
     /\ LET t == Head(sc.q)
            last == t.k = "SE"
        IN IF Case.mode = "scan"
           THEN Consume(<<t>>, last, sc' = Deliver(S) /\ UNCHANGED <<fin, toks, terr, ps, cs>>)
           ELSE /\ toks' = Append(toks, t) /\ sc' = Deliver(S) /\ fin' = last
                /\ ph' = IF last \/ Enough(Append(toks, t)) THEN "parse" ELSE "scan"
                /\ UNCHANGED <<terr, ps, cs>> /\ Internal

FindNext ==
  /\ ph = "scan" /\ sc.k = "" /\ Ok(sc)
  /\ sc.q # <<>> => LET S == Settled(sc) IN Ok(S) /\ ~Deliverable(S)
  /\ sc' = Advance(IF sc.q = <<>> THEN sc ELSE Settled(sc))
  /\ Quiet

StaleKey ==
  /\ ph = "scan" /\ sc.k = "" /\ Ok(sc) /\ sc.q # <<>> /\ ~Ok(Settled(sc))
  /\ sc' = Settled(sc)
  /\ Quiet

ScanError == ph = "scan" /\ ~Ok(sc) /\ Raise(sc.er)

Fetching(kind) == ph = "scan" /\ sc.k = kind /\ Ok(sc)

Did(S) == IF rd # NONE /\ UpToEnd(sc, S) THEN Raise(rd) ELSE sc' = [S EXCEPT !.k = ""] /\ Quiet

FetchStreamStart == Fetching("ss") /\ Did(StreamStart(sc, en))
FetchStreamEnd == Fetching("end") /\ rd = NONE /\ Did(StreamEnd(sc))
EndOfReading == Fetching("end") /\ rd # NONE /\ Raise(rd)
FetchDirective == Fetching("dir") /\ Did(Directive(sc))
FetchDocumentStart == Fetching("ds") /\ Did(DocumentIndicator(sc, "DS"))
FetchDocumentEnd == Fetching("de") /\ Did(DocumentIndicator(sc, "DE"))
FetchFlowSequenceStart == Fetching("fss") /\ Did(FlowStart(sc, "FSS"))
FetchFlowMappingStart == Fetching("fms") /\ Did(FlowStart(sc, "FMS"))
FetchFlowSequenceEnd == Fetching("fse") /\ Did(FlowEnd(sc, "FSE"))
FetchFlowMappingEnd == Fetching("fme") /\ Did(FlowEnd(sc, "FME"))
FetchFlowEntry == Fetching("fen") /\ Did(FlowEntry(sc))
FetchBlockEntry == Fetching("ben") /\ Did(BlockEntry(sc))
FetchKey == Fetching("key") /\ Did(KeyIndicator(sc))
FetchValue == Fetching("val") /\ Did(ValueIndicator(sc))
FetchAlias == Fetching("ali") /\ Did(Anchor(sc, "ALI"))
FetchAnchor == Fetching("anc") /\ Did(Anchor(sc, "ANC"))
FetchTag == Fetching("tag") /\ Did(Tag(sc))
FetchLiteral == Fetching("lit") /\ Did(BlockScalar(sc, TRUE))
FetchFolded == Fetching("fol") /\ Did(BlockScalar(sc, FALSE))
FetchSingleQuoted == Fetching("sq") /\ Did(FlowScalar(sc, TRUE))
FetchDoubleQuoted == Fetching("dq") /\ Did(FlowScalar(sc, FALSE))
FetchPlain == Fetching("pl") /\ Did(PlainScalar(sc))
NoToken == Fetching("bad") /\ Did(Fetch(sc, 0))

----------------------------------------------------------------------------
(* The parser: one action per state *)
Loading == Case.mode = "load"
Parsing(st) == ph = "parse" /\ ps.st = st
Rest(P) == /\ toks' = SubSeq(toks, P.i, Len(toks)) /\ ps' = [P EXCEPT !.i = 1]
(* Back to the scanner when there might not be enough tokens for a step *)
More(ts) == IF fin \/ Enough(ts) THEN "parse" ELSE "scan"
ParseTo(P) ==
  LET ev == P.ev
      last == ev.k \in {"ERR", "SE"}
  IN IF Loading
     THEN /\ Rest(P)
          /\ ph' = IF ev.k = "SS" THEN More(SubSeq(toks, P.i, Len(toks))) ELSE "compose"
          /\ UNCHANGED <<fin, sc, terr, cs>> /\ Internal
     ELSE IF last THEN Consume(<<ev>>, TRUE, TRUE)
     ELSE ConsumeTo(<<ev>>, More(SubSeq(toks, P.i, Len(toks))), Rest(P) /\ UNCHANGED <<fin, sc, terr, cs>>)

PStreamStart == Parsing("StreamStart") /\ ParseTo(ParseStep(ps))
PImplicitDocumentStart == Parsing("ImplicitDocumentStart") /\ ParseTo(ParseStep(ps))
PDocumentStart == Parsing("DocumentStart") /\ ParseTo(ParseStep(ps))
PDocumentContent == Parsing("DocumentContent") /\ ParseTo(ParseStep(ps))
PDocumentEnd == Parsing("DocumentEnd") /\ ParseTo(ParseStep(ps))
PBlockNode == Parsing("BlockNode") /\ ParseTo(ParseStep(ps))
PBlockSequenceFirstEntry == Parsing("BlockSequenceFirstEntry") /\ ParseTo(ParseStep(ps))
PBlockSequenceEntry == Parsing("BlockSequenceEntry") /\ ParseTo(ParseStep(ps))
PIndentlessSequenceEntry == Parsing("IndentlessSequenceEntry") /\ ParseTo(ParseStep(ps))
PBlockMappingFirstKey == Parsing("BlockMappingFirstKey") /\ ParseTo(ParseStep(ps))
PBlockMappingKey == Parsing("BlockMappingKey") /\ ParseTo(ParseStep(ps))
PBlockMappingValue == Parsing("BlockMappingValue") /\ ParseTo(ParseStep(ps))
PFlowSequenceFirstEntry == Parsing("FlowSequenceFirstEntry") /\ ParseTo(ParseStep(ps))
PFlowSequenceEntry == Parsing("FlowSequenceEntry") /\ ParseTo(ParseStep(ps))
PFlowSequenceEntryMappingKey == Parsing("FlowSequenceEntryMappingKey") /\ ParseTo(ParseStep(ps))
PFlowSequenceEntryMappingValue == Parsing("FlowSequenceEntryMappingValue") /\ ParseTo(ParseStep(ps))
PFlowSequenceEntryMappingEnd == Parsing("FlowSequenceEntryMappingEnd") /\ ParseTo(ParseStep(ps))
PFlowMappingFirstKey == Parsing("FlowMappingFirstKey") /\ ParseTo(ParseStep(ps))
PFlowMappingKey == Parsing("FlowMappingKey") /\ ParseTo(ParseStep(ps))
PFlowMappingValue == Parsing("FlowMappingValue") /\ ParseTo(ParseStep(ps))
PFlowMappingEmptyValue == Parsing("FlowMappingEmptyValue") /\ ParseTo(ParseStep(ps))

----------------------------------------------------------------------------
(* The composer: one action per kind of event *)
Composing(ks) == ph = "compose" /\ ps.ev.k \in ks
ComposeTo(C) ==
  IF C.er # NONE THEN Consume(<<C.er>>, TRUE, TRUE)
  ELSE /\ cs' = C /\ ph' = More(toks)
       /\ UNCHANGED <<fin, sc, toks, terr, ps>> /\ Internal

ComposeDocumentStart == Composing({"DOC"}) /\ ComposeTo(ComposeStep(cs, ps.ev))
ComposeAlias == Composing({"ALIAS"}) /\ ComposeTo(ComposeStep(cs, ps.ev))
ComposeScalar == Composing({"SCALAR"}) /\ ComposeTo(ComposeStep(cs, ps.ev))
ComposeCollection == Composing({"SEQ", "MAP"}) /\ ComposeTo(ComposeStep(cs, ps.ev))
ComposeCollectionEnd == Composing({"SEQE", "MAPE"}) /\ ComposeTo(ComposeStep(cs, ps.ev))
ComposeError == Composing({"ERR"}) /\ ComposeTo(ComposeStep(cs, ps.ev))
ComposeDocumentEnd ==
  /\ Composing({"DOCE"})
  /\ LET ts == Observed(ComposeStep(cs, ps.ev)) IN
     ConsumeTo(ts, More(toks), cs' = CsInit /\ UNCHANGED <<fin, sc, toks, terr, ps>>)
ComposeStreamEnd == Composing({"SE"}) /\ Consume(Observed(CsInit), TRUE, TRUE)

----------------------------------------------------------------------------
(* Operations after the end *)
TailStep(op) ==
  CASE op = "n" -> <<Tok("NOTHING", <<>>, <<>>, <<>>)>>
    [] op = "l" -> Observed(CsInit)
    [] OTHER -> <<Tok("SE", NOMARK \o NOMARK, <<>>, <<>>)>>
AfterTheEnd ==
  /\ ph = "tail"
  /\ LET ts == TailStep(Ops[k + 1]) IN
     IF Matches(ts) /\ LastOp
     THEN IF Over(ts) THEN Finish(TRUE, "", ts) ELSE Finish(FALSE, "more than expected", ts)
     ELSE IF Matches(ts) THEN Go(Len(ts), "tail") /\ UNCHANGED <<fin, sc, toks, terr, ps, cs>>
     ELSE Finish(FALSE, "after the end", ts)

Next ==
  \/ AfterTheEnd
  \/ DeliverToken \/ FindNext \/ StaleKey \/ ScanError \/ EndOfReading
  \/ FetchStreamStart \/ FetchStreamEnd \/ FetchDirective \/ FetchDocumentStart \/ FetchDocumentEnd
  \/ FetchFlowSequenceStart \/ FetchFlowMappingStart \/ FetchFlowSequenceEnd \/ FetchFlowMappingEnd
  \/ FetchFlowEntry \/ FetchBlockEntry \/ FetchKey \/ FetchValue \/ FetchAlias \/ FetchAnchor \/ FetchTag
  \/ FetchLiteral \/ FetchFolded \/ FetchSingleQuoted \/ FetchDoubleQuoted \/ FetchPlain \/ NoToken
  \/ PStreamStart \/ PImplicitDocumentStart \/ PDocumentStart \/ PDocumentContent \/ PDocumentEnd \/ PBlockNode
  \/ PBlockSequenceFirstEntry \/ PBlockSequenceEntry \/ PIndentlessSequenceEntry
  \/ PBlockMappingFirstKey \/ PBlockMappingKey \/ PBlockMappingValue
  \/ PFlowSequenceFirstEntry \/ PFlowSequenceEntry \/ PFlowSequenceEntryMappingKey
  \/ PFlowSequenceEntryMappingValue \/ PFlowSequenceEntryMappingEnd
  \/ PFlowMappingFirstKey \/ PFlowMappingKey \/ PFlowMappingValue \/ PFlowMappingEmptyValue
  \/ ComposeDocumentStart \/ ComposeAlias \/ ComposeScalar \/ ComposeCollection \/ ComposeCollectionEnd
  \/ ComposeError \/ ComposeDocumentEnd \/ ComposeStreamEnd

Spec == Init /\ [][Next]_vars

ASSUME TLCSet(1, 0) /\ TLCSet(2, 0)
Report == PrintT("##" \o ToJson([accepted |-> TLCGet(1), rejected |-> TLCGet(2), cases |-> N]))
=============================================================================
