------------------------------ MODULE DocTrace ------------------------------
(***************************************************************************)
(* Trace validation of the document interface: every case is a history of  *)
(* operations with what each of them returned.                             *)
(***************************************************************************)
EXTENDS Builder, Json, IOUtils

LANE == 200

ASSUME TLCSet(7, ndJsonDeserialize(IOEnv.CASES))
Cases == TLCGet(7)
N == Len(Cases)

VARIABLES tx, j, a  \* case; operations done; observations matched
vars == <<tx, j, a, ds, res>>
view == <<tx, j, a>>

Case == Cases[tx]
Obs == Case.o

Init == tx \in {i \in 1..N : i % LANE = 1} /\ j = 0 /\ a = 0 /\ ds = <<>> /\ res = <<>>

Finish(verdict, why) ==
  /\ IF verdict THEN TLCSet(1, TLCGet(1) + 1)
     ELSE /\ TLCSet(2, TLCGet(2) + 1)
          /\ PrintT("@@" \o ToJson([id |-> Case.id, at |-> j, why |-> why, want |-> res,
                                    got |-> IF a + 1 <= Len(Obs) THEN <<Obs[a + 1]>> ELSE <<>>]))
  /\ tx < N /\ tx % LANE # 0
  /\ tx' = tx + 1 /\ j' = 0 /\ a' = 0 /\ ds' = <<>> /\ res' = <<>>

(* Positions of nodes are not what this is about *)
Seen(t, o) == t.k = o.k /\ t.s = o.s /\ t.n = o.n

(* First perform the operation, then compare what it returned *)
Operate == res = <<>> /\ j < Len(Case.ops) /\ Case.ops[j + 1].k # "LOAD"
           /\ Perform(Case.ops[j + 1]) /\ j' = j + 1 /\ UNCHANGED <<tx, a>>

(* A loaded document is taken as it is *)
Load ==
  /\ res = <<>> /\ j < Len(Case.ops) /\ Case.ops[j + 1].k = "LOAD"
  /\ IF a < Len(Obs) /\ Obs[a + 1].k = "DOCUMENT" /\ a + 1 + Obs[a + 1].n[6] <= Len(Obs)
        /\ ConsistentTable(SubSeq(Obs, a + 2, a + 1 + Obs[a + 1].n[6]))
     THEN LET h == Obs[a + 1]
              size == h.n[6]
          IN /\ ds' = Append(ds, [h |-> [h EXCEPT !.n = SubSeq(@, 1, 5)], t |-> SubSeq(Obs, a + 2, a + 1 + size)])
             /\ a' = a + 1 + size /\ j' = j + 1 /\ UNCHANGED <<tx, res>>
     ELSE Finish(FALSE, "not loaded")

Compare ==
  /\ res # <<>>
  /\ IF a + Len(res) <= Len(Obs) /\ \A i \in 1..Len(res) : Seen(res[i], Obs[a + i])
     THEN a' = a + Len(res) /\ res' = <<>> /\ UNCHANGED <<tx, j, ds>>
     ELSE Finish(FALSE, "differs")

End == res = <<>> /\ j = Len(Case.ops) /\ IF a = Len(Obs) THEN Finish(TRUE, "") ELSE Finish(FALSE, "more than expected")

Next == Operate \/ Load \/ Compare \/ End
Spec == Init /\ [][Next]_vars

ASSUME TLCSet(1, 0) /\ TLCSet(2, 0)
Report == PrintT("##" \o ToJson([accepted |-> TLCGet(1), rejected |-> TLCGet(2), cases |-> N]))
=============================================================================
