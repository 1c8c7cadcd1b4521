------------------------------ MODULE Grammar ------------------------------
(***************************************************************************)
(* The grammar of event streams, as an acceptor: what may follow?          *)
(* Independent of how the parser and the emitter work.                     *)
(*                                                                         *)
(*   stream ::= SS (DOC node DOCE)* SE                                     *)
(*   node ::= ALIAS | SCALAR | SEQ node* SEQE | MAP (node node)* MAPE      *)
(***************************************************************************)
EXTENDS Chars

(* A stack of what is expected; the first is the innermost *)
GrInit == <<"stream">>
GrEnd == <<"nothing">>
GrBad == <<"bad">>

NodeKinds == {"ALIAS", "SCALAR", "SEQ", "MAP"}
(* After a node where x was expected *)
AfterNode(x) == CASE x = "root" -> <<"documentend">> [] x = "key" -> <<"value">> [] x = "value" -> <<"key">> [] OTHER -> <<"item">>
Inner(kind) == CASE kind = "SEQ" -> <<"item">> [] kind = "MAP" -> <<"key">> [] OTHER -> <<>>

GrStep(g, kind) ==
  LET x == Head(g) IN
  CASE x = "stream" /\ kind = "SS" -> <<"document">>
    [] x = "document" /\ kind = "DOC" -> <<"root">>
    [] x = "document" /\ kind = "SE" -> GrEnd
    [] x = "documentend" /\ kind = "DOCE" -> <<"document">>
    [] x = "item" /\ kind = "SEQE" -> Tail(g)
    [] x = "key" /\ kind = "MAPE" -> Tail(g)
    [] x \in {"root", "item", "key", "value"} /\ kind \in NodeKinds -> Inner(kind) \o AfterNode(x) \o Tail(g)
    [] OTHER -> GrBad

(* How many collections are open *)
GrDepth(g) == Len(g) - 1
Possible(g) == {kind \in {"SS", "SE", "DOC", "DOCE", "SEQ", "SEQE", "MAP", "MAPE", "SCALAR", "ALIAS"} : GrStep(g, kind) # GrBad}
=============================================================================
