------------------------------ MODULE Composer ------------------------------
(***************************************************************************)
(* The composer (Document::load): from the events of one document to a     *)
(* node table.                                                             *)
(*                                                                         *)
(*   cs.nodes  the nodes, 1-based: [k, m, tag, s, style, c] where c are    *)
(*             the items, or the keys and values alternately (0: missing)  *)
(*   cs.ctx    the open collections, innermost last                        *)
(*   cs.an     the anchors of this document: <<name, node, mark>>          *)
(*   cs.hdr    what the document start event said                          *)
(***************************************************************************)
EXTENDS Tags

VARIABLES cs

CsInit == [nodes |-> <<>>, ctx |-> <<>>, an |-> <<>>, hdr |-> NONE, ftr |-> NONE, er |-> NONE, done |-> FALSE]

DefaultTag(tag, dflt) == IF tag = <<>> \/ tag = <<<<33>>>> THEN dflt ELSE tag[1]

CFail(C, ctx, cm, pr, pm) == [C EXCEPT !.er = Err("Composer", ctx, cm, pr, pm)]

(* Attach node i to the innermost open collection.  A 0 stands for a value
   still to come, and a mapping whose last pair is complete takes a key. *)
Attach(C, i) ==
  IF C.ctx = <<>> THEN C
  ELSE LET p == C.ctx[Len(C.ctx)] IN [C EXCEPT !.nodes[p].c = Append(@, i)]

FindAnchor(C, name) ==
  LET s == {i \in 1..Len(C.an) : C.an[i][1] = name} IN
  IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : i <= j

NewNode(C, kind, ev, tag, value, style) ==
  LET C1 == [C EXCEPT !.nodes = Append(@, [k |-> kind, m |-> ev.m, tag |-> tag, s |-> value, style |-> style, c |-> <<>>])]
      i == Len(C1.nodes)
      a == ev.s[1]
      start == SubSeq(ev.m, 1, 3)
  IN IF a # <<>> /\ FindAnchor(C, a[1]) # 0
     THEN CFail(C1, "found duplicate anchor; first occurrence", C.an[FindAnchor(C, a[1])][3],
                "second occurrence", start)
     ELSE LET C2 == IF a = <<>> THEN C1 ELSE [C1 EXCEPT !.an = Append(@, <<a[1], i, start>>)]
              C3 == Attach(C2, i)
          IN IF kind = "NS" THEN C3 ELSE [C3 EXCEPT !.ctx = Append(@, i)]

CloseNode(C, ev) ==
  LET p == C.ctx[Len(C.ctx)] IN
  [C EXCEPT !.nodes[p].m = SubSeq(@, 1, 3) \o SubSeq(ev.m, 4, 6), !.ctx = SubSeq(@, 1, Len(@) - 1)]

ComposeStep(C, ev) ==
  CASE ev.k = "ERR" -> [C EXCEPT !.er = ev]
    [] ev.k = "DOC" -> [C EXCEPT !.hdr = ev]
    [] ev.k = "DOCE" -> [C EXCEPT !.ftr = ev, !.done = TRUE]
    [] ev.k = "ALIAS" ->
         LET a == FindAnchor(C, ev.s[1]) IN
         IF a = 0 THEN CFail(C, "", NOMARK, "found undefined alias", SubSeq(ev.m, 1, 3))
         ELSE Attach(C, C.an[a][2])
    [] ev.k = "SCALAR" -> NewNode(C, "NS", ev, DefaultTag(ev.s[2], StrTag), ev.s[3], ev.n[3])
    [] ev.k = "SEQ" -> NewNode(C, "NQ", ev, DefaultTag(ev.s[2], SeqTag), <<>>, ev.n[2])
    [] ev.k = "MAP" -> NewNode(C, "NM", ev, DefaultTag(ev.s[2], MapTag), <<>>, ev.n[2])
    [] ev.k \in {"SEQE", "MAPE"} -> CloseNode(C, ev)

(* The document as it is observed: a header step and a step per node *)
NodeStep(N) == Tok(N.k, N.m, IF N.k = "NS" THEN <<<<N.tag>>, N.s>> ELSE <<<<N.tag>>>>, <<N.style>> \o N.c)
Observed(C) ==
  IF C.hdr = NONE THEN <<Tok("DOCUMENT", NOMARK \o NOMARK, <<>>, <<0, 0, 0, 0, 0, 0>>)>>
  ELSE <<Tok("DOCUMENT", SubSeq(C.hdr.m, 1, 3) \o SubSeq(C.ftr.m, 4, 6), C.hdr.s,
             <<C.hdr.n[1], C.ftr.n[1]>> \o SubSeq(C.hdr.n, 2, 4) \o <<Len(C.nodes)>>)>>
       \o [i \in 1..Len(C.nodes) |-> NodeStep(C.nodes[i])]
=============================================================================
