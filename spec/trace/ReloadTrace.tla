---------------------------- MODULE ReloadTrace ----------------------------
(***************************************************************************)
(* Trace validation of dumping and loading back: every case is documents   *)
(* that were dumped as one stream, and the documents loaded from that.     *)
(***************************************************************************)
EXTENDS Dumper, Json, IOUtils

LANE == 100

ASSUME TLCSet(7, ndJsonDeserialize(IOEnv.CASES))
Cases == TLCGet(7)
N == Len(Cases)

VARIABLES tx, a, b  \* case; observations matched of the documents dumped, and of those loaded
vars == <<tx, a, b>>

Case == Cases[tx]
Obs == Case.o
Where(i, k) == {j \in 1..Len(Cases[i].o) : Cases[i].o[j].k = k}
(* Observations: documents, DUMP, TEXT, documents *)
Start(i) == IF Where(i, "TEXT") = {} THEN 0 ELSE CHOOSE j \in Where(i, "TEXT") : TRUE

Init == tx \in {i \in 1..N : i % LANE = 1} /\ a = 0 /\ b = Start(tx)

Finish(verdict, why) ==
  /\ IF verdict THEN TLCSet(1, TLCGet(1) + 1)
     ELSE /\ TLCSet(2, TLCGet(2) + 1)
          /\ PrintT("@@" \o ToJson([id |-> Case.id, at |-> a + 1, why |-> why, want |-> <<Obs[a + 1]>>,
                                    got |-> IF b + 1 <= Len(Obs) THEN <<Obs[b + 1]>> ELSE <<>>]))
  /\ tx < N /\ tx % LANE # 0
  /\ tx' = tx + 1 /\ a' = 0 /\ b' = Start(tx + 1)

(* A scalar must have a tag: there is no way to say that its tag is implicit *)
Untagged == \E i \in 1..Len(Obs) : Obs[i].k = "NS" /\ Obs[i].s[1] = <<>>

NotWritten == b = 0 /\ Finish(Untagged /\ Obs[Len(Obs)].k = "ERR", "not dumped")

(* The document at observation i + 1 *)
Size(i) == Obs[i + 1].n[6]
Whole(i) == Obs[i + 1].k = "DOCUMENT" /\ i + 1 + Size(i) <= Len(Obs)
Doc(i) == SubSeq(Obs, i + 1, i + 1 + Size(i))
Directives(i) == <<Obs[i + 1].s, SubSeq(Obs[i + 1].n, 3, 5)>>

Document ==
  /\ b > 0 /\ a < Len(Obs) /\ Obs[a + 1].k = "DOCUMENT"
  /\ IF b < Len(Obs) /\ Whole(b)
     THEN IF SameGraph(Tail(Doc(a)), Tail(Doc(b))) /\ Directives(a) = Directives(b)
          THEN a' = a + 1 + Size(a) /\ b' = b + 1 + Size(b) /\ tx' = tx
          ELSE Finish(FALSE, "another graph")
     ELSE Finish(FALSE, "not loaded")

End == b > 0 /\ Obs[a + 1].k = "DUMP" /\ Finish(b = Len(Obs), "more than was dumped")

Next == NotWritten \/ Document \/ End
Spec == Init /\ [][Next]_vars

ASSUME TLCSet(1, 0) /\ TLCSet(2, 0)
Report == PrintT("##" \o ToJson([accepted |-> TLCGet(1), rejected |-> TLCGet(2), cases |-> N]))
=============================================================================
