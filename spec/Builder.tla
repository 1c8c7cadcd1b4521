------------------------------ MODULE Builder ------------------------------
(***************************************************************************)
(* The document interface: documents that are made, added to, looked at,   *)
(* changed and copied.                                                     *)
(*                                                                         *)
(*   ds    the documents: sequences of nodes with a header                 *)
(*         [h |-> header, t |-> table of nodes]                            *)
(*   res   what the last operation returned: a sequence of steps           *)
(*                                                                         *)
(* An operation is [k kind, d document, n numbers, s strings].             *)
(***************************************************************************)
EXTENDS Tags

VARIABLES ds, res

Returns(k, ns) == Tok(k, <<>>, <<>>, ns)
Nothing == <<Returns("NOTHING", <<>>)>>
Refused == <<Returns("PANIC", <<>>)>>
Id(i) == <<Returns("ID", <<i>>)>>
Done == <<Returns("OK", <<>>)>>

Z6 == NOMARK \o NOMARK
Scalar(tag, value, style) == Tok("NS", Z6, <<tag, value>>, <<style>>)
Sequence(tag, style) == Tok("NQ", Z6, <<tag>>, <<style>>)
Mapping(tag, style) == Tok("NM", Z6, <<tag>>, <<style>>)
Header(op) == Tok("DOCUMENT", Z6, op.s, op.n)

Table(d) == ds[d].t
Size(d) == Len(Table(d))
There(d, i) == i >= 1 /\ i <= Size(d)
Isa(d, i, kind) == There(d, i) /\ Table(d)[i].k = kind
TagOr(tag, kind) == IF tag = <<>> THEN <<DefaultOf(kind)>> ELSE tag

(* Everything there is to see of a document *)
Shown(D) == <<[D.h EXCEPT !.n = Append(@, Len(D.t))]>> \o D.t

Add(d, node) == /\ ds' = [ds EXCEPT ![d].t = Append(@, node)]
                /\ res' = Id(Size(d) + 1)
Append_(d, i, refs) == /\ ds' = [ds EXCEPT ![d].t[i].n = @ \o refs]
                       /\ res' = Done
Same_(r) == ds' = ds /\ res' = r

----------------------------------------------------------------------------
New(op) == op.k = "NEW" /\ ds' = Append(ds, [h |-> Header(op), t |-> <<>>]) /\ res' = Done
AddScalar(op) == op.k = "SC" /\ Add(op.d, Scalar(TagOr(op.s[1], "NS"), op.s[2], op.n[1]))
AddSequence(op) == op.k = "SQ" /\ Add(op.d, Sequence(TagOr(op.s[1], "NQ"), op.n[1]))
AddMapping(op) == op.k = "MP" /\ Add(op.d, Mapping(TagOr(op.s[1], "NM"), op.n[1]))

AppendItem(op) ==
  /\ op.k = "AI" /\ Isa(op.d, op.n[1], "NQ") /\ There(op.d, op.n[2])
  /\ Append_(op.d, op.n[1], <<op.n[2]>>)
AppendPair(op) ==
  /\ op.k = "AP" /\ Isa(op.d, op.n[1], "NM") /\ There(op.d, op.n[2]) /\ There(op.d, op.n[3])
  /\ Append_(op.d, op.n[1], <<op.n[2], op.n[3]>>)
(* What does not exist, or is no such collection, cannot be appended (to) *)
RefuseAppend(op) ==
  /\ \/ op.k = "AI" /\ ~(Isa(op.d, op.n[1], "NQ") /\ There(op.d, op.n[2]))
     \/ op.k = "AP" /\ ~(Isa(op.d, op.n[1], "NM") /\ There(op.d, op.n[2]) /\ There(op.d, op.n[3]))
  /\ Same_(Refused)

Get(op) == op.k \in {"GET", "GETM"} /\ Same_(IF There(op.d, op.n[1]) THEN <<Table(op.d)[op.n[1]]>> ELSE Nothing)
Root(op) == op.k = "ROOT" /\ Same_(IF Size(op.d) > 0 THEN <<Table(op.d)[1]>> ELSE Nothing)

(* Through get_node_mut, or get_root_node (0): becomes this scalar *)
Change(op) ==
  /\ op.k = "SET"
  /\ LET i == IF op.n[1] = 0 /\ Size(op.d) > 0 THEN 1 ELSE op.n[1]
         node == Scalar(op.s[1], op.s[2], op.n[2])
     IN IF There(op.d, i)
        THEN ds' = [ds EXCEPT ![op.d].t[i] = [node EXCEPT !.m = Table(op.d)[i].m]] /\ res' = Done
        ELSE Same_(Nothing)

Copy(op) == op.k = "CLONE" /\ ds' = Append(ds, ds[op.d]) /\ res' = Done
Look(op) == op.k = "ALL" /\ Same_(Shown(ds[op.d]))

Perform(op) ==
  \/ New(op) \/ AddScalar(op) \/ AddSequence(op) \/ AddMapping(op)
  \/ AppendItem(op) \/ AppendPair(op) \/ RefuseAppend(op)
  \/ Get(op) \/ Root(op) \/ Change(op) \/ Copy(op) \/ Look(op)

----------------------------------------------------------------------------
(* Whatever is done, tables stay consistent *)
Refs(node) == IF node.k = "NS" THEN {} ELSE {node.n[i] : i \in 2..Len(node.n)}
ConsistentTable(t) ==
  \A i \in 1..Len(t) :
    /\ t[i].k \in {"NS", "NQ", "NM"}
    /\ Refs(t[i]) \subseteq 1..Len(t)
    /\ t[i].k = "NM" => Len(t[i].n) % 2 = 1
Consistent == \A d \in 1..Len(ds) : ConsistentTable(Table(d))
=============================================================================
