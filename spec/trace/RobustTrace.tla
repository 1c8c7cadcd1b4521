---------------------------- MODULE RobustTrace ----------------------------
(***************************************************************************)
(* Trace validation of runs on arbitrary input: every case says how often  *)
(* in a row which class of results was delivered.                          *)
(***************************************************************************)
EXTENDS Robust, Sequences, TLC, Json, IOUtils

LANE == 500

ASSUME TLCSet(7, ndJsonDeserialize(IOEnv.CASES))
Cases == TLCGet(7)
N == Len(Cases)

VARIABLES tx, j  \* case; runs matched
vars == <<tx, j, ro>>
view == <<tx, j>>

Case == Cases[tx]
Obs == Case.o
Got == Obs[j + 1]

Init == tx \in {i \in 1..N : i % LANE = 1} /\ j = 0 /\ ro = RoInit

Finish(verdict) ==
  /\ IF verdict THEN TLCSet(1, TLCGet(1) + 1)
     ELSE /\ TLCSet(2, TLCGet(2) + 1)
          /\ PrintT("@@" \o ToJson([id |-> Case.id, at |-> j + 1, why |-> "not possible", want |-> <<ro>>,
                                    got |-> IF j + 1 <= Len(Obs) THEN <<Got>> ELSE <<>>]))
  /\ tx < N /\ tx % LANE # 0
  /\ tx' = tx + 1 /\ j' = 0 /\ ro' = RoInit

(* Whether the result is possible is asked first: nothing else may happen *)
Possible(g) == CASE g.k = "T" -> ro.st = "open" /\ ro.n + g.n[2] <= Bound(Len(Case.b))
                 [] g.k = "E" -> ro.st = "open" /\ g.n[1] = 1
                 [] g.k = "N" -> ro.st = "over"
                 [] OTHER -> g.k \in {"Z", "D", "F"}

Step == j < Len(Obs) /\ Possible(Got) /\ Result(Got.k, Got.n[1], Got.n[2], Len(Case.b)) /\ j' = j + 1 /\ tx' = tx
Reject == j < Len(Obs) /\ ~Possible(Got) /\ Finish(FALSE)
End == j = Len(Obs) /\ Finish(TRUE)

Next == Step \/ Reject \/ End
Spec == Init /\ [][Next]_vars

ASSUME TLCSet(1, 0) /\ TLCSet(2, 0)
Report == PrintT("##" \o ToJson([accepted |-> TLCGet(1), rejected |-> TLCGet(2), cases |-> N]))
=============================================================================
