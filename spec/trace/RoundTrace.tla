----------------------------- MODULE RoundTrace -----------------------------
(***************************************************************************)
(* Trace validation of round trips: the events emitted, and those read     *)
(* from the text the emitter wrote.                                        *)
(***************************************************************************)
EXTENDS RoundTrip, Json, IOUtils

LANE == 200

ASSUME TLCSet(7, ndJsonDeserialize(IOEnv.CASES))
Cases == TLCGet(7)
N == Len(Cases)

VARIABLES tx, j, g  \* case; events matched; operations that set something, so far
vars == <<tx, j, g>>

Case == Cases[tx]
Obs == Case.o
Done == j + g

Init == tx \in {i \in 1..N : i % LANE = 1} /\ j = 0 /\ g = 0

Finish(verdict, why) ==
  /\ IF verdict THEN TLCSet(1, TLCGet(1) + 1)
     ELSE /\ TLCSet(2, TLCGet(2) + 1)
          /\ PrintT("@@" \o ToJson([id |-> Case.id, at |-> j + 1, why |-> why,
                                    want |-> IF Done + 1 <= Len(Case.ops) THEN <<Case.ops[Done + 1]>> ELSE <<>>,
                                    got |-> IF j + 2 <= Len(Obs) THEN <<Obs[j + 2]>> ELSE <<>>]))
  /\ tx < N /\ tx % LANE # 0
  /\ tx' = tx + 1 /\ j' = 0 /\ g' = 0

(* The emitter must have accepted all of them *)
NotWritten == j = 0 /\ g = 0 /\ Obs[1].k # "TEXT" /\ Finish(FALSE, "refused")

(* Settings that change do not change what is read *)
Setting == Obs[1].k = "TEXT" /\ Done < Len(Case.ops) /\ Case.ops[Done + 1].k = "SET" /\ g' = g + 1 /\ UNCHANGED <<tx, j>>

ReadBack == /\ Obs[1].k = "TEXT" /\ Done < Len(Case.ops) /\ Case.ops[Done + 1].k # "SET"
            /\ IF j + 2 <= Len(Obs) /\ Equivalent(Case.cfg, Case.ops[Done + 1], Obs[j + 2], Obs[1].s = <<>>)
               THEN j' = j + 1 /\ UNCHANGED <<tx, g>>
               ELSE Finish(FALSE, "read back differently")

End == Obs[1].k = "TEXT" /\ Done = Len(Case.ops) /\ IF Len(Obs) = j + 1 THEN Finish(TRUE, "") ELSE Finish(FALSE, "more than was emitted")

Next == NotWritten \/ Setting \/ ReadBack \/ End
Spec == Init /\ [][Next]_vars

ASSUME TLCSet(1, 0) /\ TLCSet(2, 0)
Report == PrintT("##" \o ToJson([accepted |-> TLCGet(1), rejected |-> TLCGet(2), cases |-> N]))
=============================================================================
