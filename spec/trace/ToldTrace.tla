----------------------------- MODULE ToldTrace -----------------------------
(***************************************************************************)
(* Trace validation of the tool that emits the events it is told: what it  *)
(* writes altogether, and how it exits.  It may be told them several times. *)
(***************************************************************************)
EXTENDS Emitter, Notation, Json, IOUtils

LANE == 500

ASSUME TLCSet(7, ndJsonDeserialize(IOEnv.CASES))
Cases == TLCGet(7)
N == Len(Cases)

VARIABLES tx, n, j, sync, r, base   \* case; steps so far in this lane; lines read; what must have been written; times told, and what was written at them
vars == <<tx, n, j, sync, r, base, es>>
view == <<tx, n>>

Case == Cases[tx]
Lines == Case.told
Got == Case.o[Len(Case.o)]
\* What was written from this time on
Told == SubSeq(Case.o[1].s, base + 1, Len(Case.o[1].s))

Fresh == EsInit([can |-> 0, ind |-> UNSET, wid |-> UNSET, uni |-> 0, br |-> 0, enc |-> 0])

Init == tx \in {i \in 1..N : i % LANE = 1} /\ n = 0 /\ j = 0 /\ sync = 0 /\ r = 0 /\ base = 0 /\ es = Fresh

Finish(verdict, why, says) ==
  /\ IF verdict THEN TLCSet(1, TLCGet(1) + 1)
     ELSE /\ TLCSet(2, TLCGet(2) + 1)
          /\ PrintT("@@" \o ToJson([id |-> Case.id, at |-> j + 1, why |-> why, want |-> <<says, Utf8Bytes(Output(es))>>, got |-> <<Got.x, Told>>]))
  /\ tx < N /\ tx % LANE # 0
  /\ tx' = tx + 1 /\ n' = n + 1 /\ j' = 0 /\ sync' = 0 /\ r' = 0 /\ base' = 0 /\ es' = Fresh

Written == Case.o[1].k = "OUT" /\ IsPrefix(Told, Utf8Bytes(Output(es))) /\ Len(Told) >= sync
Exit(code) == Len(Case.o) = 2 /\ Got.k = "EXIT" /\ Got.n = <<code>>

Take ==
  /\ Fine(es) /\ ~Ready(es) /\ j < Len(Lines)
  /\ LET e == EventOf(Lines[j + 1]) IN
     IF e = NONE
     THEN IF Written /\ Exit(1) /\ Got.s = <<85, 110, 107, 110, 111, 119, 110, 32, 101, 118, 101, 110, 116, 58, 32, 39>> \o Lines[j + 1] \o <<39, 10>>
          THEN Finish(TRUE, "", "") ELSE Finish(FALSE, "should be unknown", "")
     ELSE es' = [es EXCEPT !.q = Append(@, e)] /\ j' = j + 1 /\ n' = n + 1 /\ UNCHANGED <<tx, sync, r, base>>

Run ==
  /\ Fine(es) /\ Ready(es)
  /\ es' = EmitStep(es)
  /\ sync' = IF Fine(es') /\ Completes(es.q[1]) THEN Len(Utf8Bytes(Output(es'))) ELSE sync
  /\ n' = n + 1 /\ UNCHANGED <<tx, j, r, base>>

Refused ==
  /\ ~Fine(es)
  /\ LET says == "Emitter error: " \o es.er.x[2] \o "\n" IN
     \* What was written for the refused event does not matter
     IF Case.o[1].k = "OUT" /\ Exit(1) /\ Got.x = says /\ Len(Told) >= sync THEN Finish(TRUE, "", "") ELSE Finish(FALSE, "should be refused", says)

\* The same again, from the start; the stream has ended, so all of it was written
Again ==
  /\ Fine(es) /\ ~Ready(es) /\ j = Len(Lines) /\ r + 1 < Case.times
  /\ LET out == Utf8Bytes(Output(es)) IN
     IF IsPrefix(out, Told)
     THEN /\ base' = base + Len(out) /\ r' = r + 1 /\ j' = 0 /\ sync' = 0 /\ es' = Fresh
          /\ n' = n + 1 /\ UNCHANGED tx
     ELSE Finish(FALSE, "differs", "")

Done ==
  /\ Fine(es) /\ ~Ready(es) /\ j = Len(Lines) /\ r + 1 >= Case.times
  /\ IF Written /\ Exit(0) /\ Got.x = "" THEN Finish(TRUE, "", "") ELSE Finish(FALSE, "differs", "")

Next == Take \/ Run \/ Refused \/ Again \/ Done
Spec == Init /\ [][Next]_vars

ASSUME TLCSet(1, 0) /\ TLCSet(2, 0)
Report == PrintT("##" \o ToJson([accepted |-> TLCGet(1), rejected |-> TLCGet(2), cases |-> N]))
=============================================================================
