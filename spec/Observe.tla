------------------------------ MODULE Observe ------------------------------
(***************************************************************************)
(* Comparing a step of the specification with an observed one.  A case     *)
(* names the aspects that matter to it:                                    *)
(*   k kinds and order      m marks            v scalar values and styles  *)
(*   p anchors, tags, directives               f flags and styles          *)
(*   g graph (children, number of nodes)       e encoding                  *)
(*   x error messages       y error positions   d how errors read         *)
(***************************************************************************)
EXTENDS ErrorText

ValuePart(t) ==
  CASE t.k = "SC" -> <<t.s, t.n>>
    [] t.k = "SCALAR" -> <<t.s[3], t.n[3]>>
    [] t.k = "NS" -> <<t.s[2], t.n[1]>>
    [] OTHER -> <<>>
PropPart(t) ==
  CASE t.k \in {"ANC", "ALI", "ALIAS", "TAG", "TD", "VD"} -> <<t.s, t.n>>
    [] t.k \in {"SCALAR", "SEQ", "MAP"} -> <<t.s[1], t.s[2]>>
    [] t.k = "DOC" -> <<t.s, SubSeq(t.n, 2, 4)>>
    [] t.k \in {"NS", "NQ", "NM"} -> <<t.s[1]>>
    [] t.k = "DOCUMENT" -> <<t.s, SubSeq(t.n, 3, 5)>>
    [] OTHER -> <<>>
FlagPart(t) ==
  CASE t.k \in {"SCALAR", "SEQ", "MAP", "DOCE"} -> t.n
    [] t.k = "DOC" -> <<t.n[1]>>
    [] t.k \in {"NS", "NQ", "NM"} -> <<t.n[1]>>
    [] t.k = "DOCUMENT" -> SubSeq(t.n, 1, 2)
    [] OTHER -> <<>>
GraphPart(t) ==
  CASE t.k \in {"NQ", "NM"} -> SubSeq(t.n, 2, Len(t.n))
    [] t.k = "DOCUMENT" -> SubSeq(t.n, 6, 6)
    [] OTHER -> <<>>
EncPart(t) == IF t.k = "SS" THEN t.n ELSE <<>>

Same(t, o, cmp) ==
  /\ t.k = o.k
  /\ IF t.k = "ERR"
     THEN /\ t.x[1] = o.x[1]
          /\ "x" \in cmp => t.x = o.x
          /\ "y" \in cmp => t.m = o.m /\ t.n = o.n
          /\ "d" \in cmp => Reads(t, o)
     ELSE /\ "m" \in cmp => t.m = o.m
          /\ "v" \in cmp => ValuePart(t) = ValuePart(o)
          /\ "p" \in cmp => PropPart(t) = PropPart(o)
          /\ "f" \in cmp => FlagPart(t) = FlagPart(o)
          /\ "g" \in cmp => GraphPart(t) = GraphPart(o)
          /\ "e" \in cmp => EncPart(t) = EncPart(o)

(* An error of the reader or of the source *)
IsInputError(o) == o.k = "ERR" /\ o.x[1] \in {"Reader", "Io"}
=============================================================================
