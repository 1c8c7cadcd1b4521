------------------------------- MODULE Texts -------------------------------
(***************************************************************************)
(* The texts of a trace validation: what the bytes of the cases decode to. *)
(* The tables are computed once and kept in registers of TLC.              *)
(***************************************************************************)
EXTENDS Reader, Json, IOUtils

ASSUME TLCSet(7, ndJsonDeserialize(IOEnv.CASES))
Cases == TLCGet(7)
N == Len(Cases)

CaseText(x) ==
  MakeText(IF x.cut < 0 THEN Decode(x.b, x.enc, NONE)
           ELSE Decode(SubSeq(x.b, 1, x.cut), x.enc, IoErr(x.ek, "source failed")))
ASSUME TLCSet(8, TLCEval([i \in 1..N |-> CaseText(Cases[i])]))
Texts == TLCGet(8)
=============================================================================
