----------------------------- MODULE EmitTrace -----------------------------
(***************************************************************************)
(* Trace validation of the emitter: every case is a sequence of operations *)
(* (events to emit, FLUSH, OPEN, CLOSE, documents to DUMP, settings to SET) *)
(* with their results and what the sink received during each of them.                                           *)
(*                                                                         *)
(*   cfg.str   the output is a byte vector, seen only at the end           *)
(*   cfg.d     how errors read matters                                     *)
(*   cfg.ek    how the sink fails                                          *)
(*   cfg.wild  operations go on after errors: they only have to return      *)
(*   cfg.lim   the sink accepts that many bytes, then fails (-1: no limit) *)
(***************************************************************************)
EXTENDS Emitter, Dumper, ErrorText, Json, IOUtils

LANE == 200

ASSUME TLCSet(7, ndJsonDeserialize(IOEnv.CASES))
Cases == TLCGet(7)
N == Len(Cases)

VARIABLES tx, n,    \* case; steps so far, in this lane
          ph, j,    \* phase: op, run, cmp; operations done
          pend,     \* bytes that have not reached the sink
          acc,      \* number of bytes that have
          sync,     \* does this operation have to deliver everything?
          opened, closed
vars == <<tx, n, ph, j, pend, acc, sync, opened, closed, es>>
view == <<tx, n>>

Case == Cases[tx]
Obs == Case.o
Strings == Case.cfg.str = 1
Start(i) == EsInit([Cases[i].cfg EXCEPT !.enc = IF Cases[i].cfg.str = 1 THEN 1 ELSE @])

Blank(i) == es' = Start(i) /\ ph' = "op" /\ j' = 0 /\ pend' = <<>> /\ acc' = 0 /\ sync' = FALSE /\ opened' = FALSE /\ closed' = FALSE

Init == /\ tx \in {i \in 1..N : i % LANE = 1}
        /\ n = 0 /\ ph = "op" /\ j = 0 /\ pend = <<>> /\ acc = 0 /\ sync = FALSE /\ opened = FALSE /\ closed = FALSE
        /\ es = Start(tx)

Tick == n' = n + 1
Stay == tx' = tx /\ Tick

Got == IF j + 1 <= Len(Obs) THEN Obs[j + 1] ELSE NONE

Finish(verdict, why, exp) ==
  /\ IF verdict THEN TLCSet(1, TLCGet(1) + 1)
     ELSE /\ TLCSet(2, TLCGet(2) + 1)
          /\ PrintT("@@" \o ToJson([id |-> Case.id, at |-> j + 1, why |-> why, want |-> <<exp>>, got |-> <<Got>>]))
  /\ tx < N /\ tx % LANE # 0
  /\ tx' = tx + 1 /\ Blank(tx + 1) /\ Tick

Wild == Case.cfg.wild = 1
(* After an error only this is known of the rest *)
Anything ==
  /\ ph = "op" /\ Wild
  /\ LET returned == {i \in 1..Len(Obs) : Obs[i].k \in {"OK", "ERR", "SKIP"}} IN
     Finish(Cardinality(returned) = Len(Case.ops) /\ Len(Obs) = Len(Case.ops) + Case.cfg.str, "does not return", NONE)

Closing == IF closed THEN <<>> ELSE <<Ev("SE", <<>>, <<>>)>>

(* The next operation *)
Take ==
  /\ ph = "op" /\ j < Len(Case.ops) /\ ~Wild
  /\ LET op == Case.ops[j + 1]
         add == CASE op.k \in {"FLUSH", "SET"} -> <<>>
                  [] op.k = "OPEN" -> <<Ev("SS", <<>>, <<0>>)>>
                  [] op.k = "CLOSE" -> Closing
                  [] op.k = "DUMP" -> (IF opened THEN <<>> ELSE <<Ev("SS", <<>>, <<0>>)>>)
                                      \o (IF Len(op.doc) = 1 THEN Closing ELSE DocumentEvents(op.doc))
                  [] OTHER -> <<op>>
     IN /\ es' = IF op.k = "SET" THEN Set(es, op.n[1], op.n[2]) ELSE [es EXCEPT !.q = @ \o add]
        /\ sync' = (op.k = "FLUSH")
        /\ opened' = (opened \/ op.k \in {"OPEN", "DUMP"})
        \* A document without nodes only ends the stream
        /\ closed' = (closed \/ op.k = "CLOSE" \/ (op.k = "DUMP" /\ Len(op.doc) = 1))
  /\ ph' = "run" /\ UNCHANGED <<j, pend, acc>> /\ Stay

(* The events that can be processed: one action per state *)
Run(st) ==
  /\ ph = "run" /\ es.st = st /\ Fine(es) /\ Ready(es)
  /\ es' = EmitStep(es)
  /\ sync' = (sync \/ Completes(es.q[1]))
  /\ UNCHANGED <<ph, j, pend, acc, opened, closed>> /\ Stay

Idle ==
  /\ ph = "run" /\ (~Fine(es) \/ ~Ready(es))
  /\ ph' = "cmp" /\ UNCHANGED <<j, es, pend, acc, sync, opened, closed>> /\ Stay

SinkErr == IoErr(Case.cfg.ek, "sink failed")
(* Is this the error that was to be? *)
IsError(e) == Got.k = "ERR" /\ Got.x = e.x /\ (Case.cfg.d = 1 => Reads(e, Got))
Failing == Case.cfg.lim >= 0 \/ Case.cfg.failat # <<>>
SinkFailed == Got.n # <<>> /\ Got.n[1] > 0

(* What the operation may have delivered *)
Delivered(all) == /\ IsPrefix(Got.s, all)
                  /\ sync /\ Got.k = "OK" => Got.s = all

Compare ==
  /\ ph = "cmp"
  /\ LET all == pend \o OutBytes(Output(es), es.g.enc) IN
     CASE ~Fine(es) ->
            \* Whether the text before it reaches the sink first does not matter
            IF IsError(es.er) \/ (Failing /\ SinkFailed /\ IsError(SinkErr))
            THEN Finish(TRUE, "", NONE) ELSE Finish(FALSE, "should be refused", es.er)
       [] Fine(es) /\ Failing /\ IsError(SinkErr) ->
            IF ~SinkFailed \/ ~IsPrefix(Got.s, all) THEN Finish(FALSE, "fails for no reason", [NONE EXCEPT !.s = all])
            ELSE IF Case.ops[j + 1].k # "FLUSH" THEN Finish(TRUE, "", NONE)
            \* ... a failed flush may be tried again
            ELSE /\ pend' = SubSeq(all, Len(Got.s) + 1, Len(all)) /\ acc' = acc + Len(Got.s)
                 /\ j' = j + 1 /\ ph' = "op" /\ es' = Taken(es) /\ UNCHANGED <<sync, opened, closed>> /\ Stay
       [] Fine(es) /\ Got.k = "OK" /\ ~SinkFailed /\ ~Strings /\ Delivered(all) ->
            /\ pend' = SubSeq(all, Len(Got.s) + 1, Len(all)) /\ acc' = acc + Len(Got.s)
            /\ j' = j + 1 /\ ph' = "op" /\ es' = Taken(es) /\ UNCHANGED <<sync, opened, closed>> /\ Stay
       [] Fine(es) /\ Got.k = "OK" /\ Strings ->
            /\ pend' = all /\ acc' = IF sync THEN Len(all) ELSE acc
            /\ j' = j + 1 /\ ph' = "op" /\ es' = Taken(es) /\ UNCHANGED <<sync, opened, closed>> /\ Stay
       [] OTHER -> Finish(FALSE, "differs", [NONE EXCEPT !.k = "OK", !.s = all])

(* All operations done *)
End ==
  /\ ph = "op" /\ j = Len(Case.ops) /\ ~Wild
  /\ IF Strings
     THEN IF Got.k = "OUT" /\ IsPrefix(Got.s, pend) /\ Len(Got.s) >= acc THEN Finish(TRUE, "", NONE)
          ELSE Finish(FALSE, "differs", [NONE EXCEPT !.k = "OUT", !.s = pend])
     ELSE IF Len(Obs) = j THEN Finish(TRUE, "", NONE) ELSE Finish(FALSE, "more than expected", NONE)

EStreamStart == Run("StreamStart")
EFirstDocumentStart == Run("FirstDocumentStart")
EDocumentStart == Run("DocumentStart")
EDocumentContent == Run("DocumentContent")
EDocumentEnd == Run("DocumentEnd")
EFlowSequenceFirstItem == Run("FlowSequenceFirstItem")
EFlowSequenceItem == Run("FlowSequenceItem")
EFlowMappingFirstKey == Run("FlowMappingFirstKey")
EFlowMappingKey == Run("FlowMappingKey")
EFlowMappingSimpleValue == Run("FlowMappingSimpleValue")
EFlowMappingValue == Run("FlowMappingValue")
EBlockSequenceFirstItem == Run("BlockSequenceFirstItem")
EBlockSequenceItem == Run("BlockSequenceItem")
EBlockMappingFirstKey == Run("BlockMappingFirstKey")
EBlockMappingKey == Run("BlockMappingKey")
EBlockMappingSimpleValue == Run("BlockMappingSimpleValue")
EBlockMappingValue == Run("BlockMappingValue")
EEnd == Run("End")

Next ==
  \/ Anything \/ Take \/ Idle \/ Compare \/ End
  \/ EStreamStart \/ EFirstDocumentStart \/ EDocumentStart \/ EDocumentContent \/ EDocumentEnd
  \/ EFlowSequenceFirstItem \/ EFlowSequenceItem \/ EFlowMappingFirstKey \/ EFlowMappingKey
  \/ EFlowMappingSimpleValue \/ EFlowMappingValue
  \/ EBlockSequenceFirstItem \/ EBlockSequenceItem \/ EBlockMappingFirstKey \/ EBlockMappingKey
  \/ EBlockMappingSimpleValue \/ EBlockMappingValue \/ EEnd

Spec == Init /\ [][Next]_vars

ASSUME TLCSet(1, 0) /\ TLCSet(2, 0)
Report == PrintT("##" \o ToJson([accepted |-> TLCGet(1), rejected |-> TLCGet(2), cases |-> N]))
=============================================================================
