------------------------------ MODULE Building ------------------------------
(***************************************************************************)
(* Model of the document interface: every history of at most Length        *)
(* operations on at most Documents documents of at most Size nodes.        *)
(***************************************************************************)
EXTENDS Builder, Json

CONSTANTS Length, Documents, Most

VARIABLES hist,   \* the operations so far, and what they returned
          told
vars == <<ds, res, hist, told>>
(* What is done next depends on the documents alone; every operation is
   tried, and replayed, at every state *)
view == ds

Op(kind, d, n, s) == [k |-> kind, d |-> d, n |-> n, s |-> s]
x_ == <<120>>
Ids == 0..Most + 1
Operations ==
  {Op("NEW", 1, <<i, 0, 0, 0, 0>>, <<>>) : i \in {0, 1}}
  \cup {Op("SC", d, <<st>>, <<t, v>>) : d \in 1..Documents, st \in {1}, t \in {<<>>, <<x_>>}, v \in {x_}}
  \cup {Op(kind, d, <<st>>, <<t>>) : kind \in {"SQ", "MP"}, d \in 1..Documents, st \in {2}, t \in {<<>>}}
  \cup {Op("AI", d, <<i, h>>, <<>>) : d \in 1..Documents, i \in Ids, h \in Ids}
  \cup {Op("AP", d, <<i, h, g>>, <<>>) : d \in 1..Documents, i \in Ids, h \in Ids, g \in {1, 2, Most + 1}}
  \cup {Op(kind, d, <<i>>, <<>>) : kind \in {"GET", "GETM"}, d \in 1..Documents, i \in Ids}
  \cup {Op("SET", d, <<i, 3>>, <<<<x_>>, <<>>>>) : d \in 1..Documents, i \in Ids}
  \cup {Op(kind, d, <<>>, <<>>) : kind \in {"ROOT", "CLONE", "ALL"}, d \in 1..Documents}
ASSUME TLCSet(11, Operations)

Makes(op) == op.k \in {"NEW", "CLONE"}
Fits(op) == /\ IF op.k = "NEW" THEN Len(ds) < Documents /\ op.d = 1 ELSE op.d <= Len(ds)
            /\ op.k = "CLONE" => Len(ds) < Documents
            /\ op.k \in {"SC", "SQ", "MP"} => Size(op.d) < Most

Init == ds = <<>> /\ res = <<>> /\ hist = <<>> /\ told = <<>>
Do(op) == /\ Len(hist) < Length /\ Fits(op) /\ Perform(op)
          /\ hist' = Append(hist, op) /\ told' = told \o res'
          \* Replayed, and the documents looked at afterwards
          /\ PrintT("%%" \o ToJson([ops |-> hist' \o [d \in 1..Len(ds') |-> Op("ALL", d, <<>>, <<>>)],
                                    told |-> told' \o FlattenSeq([d \in 1..Len(ds') |-> Shown(ds'[d])])]))
Next == \E op \in TLCGet(11) : Do(op)
Spec == Init /\ [][Next]_vars

(* Looking changes nothing; nothing is forgotten or renumbered *)
Grows == [][ /\ Len(ds') >= Len(ds)
             /\ \A d \in 1..Len(ds) : /\ Len(ds'[d].t) >= Len(ds[d].t) /\ ds'[d].h = ds[d].h
                                      /\ \A i \in 1..Len(ds[d].t) : ds'[d].t[i] # ds[d].t[i] =>
                                           hist'[Len(hist')].d = d /\ hist'[Len(hist')].k \in {"AI", "AP", "SET"} ]_vars
(* Documents do not affect each other *)
Apart == [][ \A d \in 1..Len(ds) : ds'[d] # ds[d] => hist'[Len(hist')].d = d ]_vars
(* Children are added at the end *)
AtTheEnd == [][ \A d \in 1..Len(ds) : \A i \in 1..Len(ds[d].t) :
                  hist'[Len(hist')].k # "SET" => IsPrefix(ds[d].t[i].n, ds'[d].t[i].n) ]_vars
=============================================================================
