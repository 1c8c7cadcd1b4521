----------------------------- MODULE ErrorText -----------------------------
(***************************************************************************)
(* How an error reads: its rendered text, which of its accessors have      *)
(* something to say, and whether an I/O error can be got out of it again.  *)
(* The observed part is d = <<text, inner, flags>>:                        *)
(*   text   the error, rendered                                            *)
(*   inner  the I/O error in it, rendered; otherwise empty                 *)
(*   flags  what there is: p problem mark, c context mark, x context,      *)
(*          s source, i converts into an I/O error of the same kind and    *)
(*          text, o converting gives the same error back                   *)
(***************************************************************************)
EXTENDS Chars

Title(kind) == IF kind = "Io" THEN "I/O" ELSE kind
(* Lines and columns are counted from 1 for the reader, from 0 in marks *)
Place(m, i) == "line " \o ToString(m[i + 1] + 1) \o " column " \o ToString(m[i + 2] + 1)

Rendered(e, inner) ==
  Title(e.x[1]) \o " error: " \o
  CASE e.x[1] = "Reader" -> e.x[2] \o " (offset " \o ToString(e.n[1]) \o ", value " \o ToString(e.n[2]) \o ")"
    [] e.x[1] = "Emitter" -> e.x[2]
    [] e.x[1] = "Io" -> inner
    [] OTHER -> Place(e.m, 4) \o ": " \o e.x[2] \o (IF e.x[3] = "" THEN "" ELSE " " \o e.x[3] \o " (" \o Place(e.m, 1) \o ")")

Flags(e) ==
  CASE e.x[1] = "Io" -> "si"
    [] e.x[1] \in {"Reader", "Emitter"} -> "o"
    [] OTHER -> IF e.x[3] = "" THEN "po" ELSE "pcxo"

Reads(e, o) ==
  /\ o.d = <<Rendered(e, o.d[2]), o.d[2], Flags(e)>>
  /\ e.x[1] = "Io" /\ e.x[3] # "" => o.d[2] = e.x[3]
  /\ e.x[1] # "Io" => o.d[2] = ""
=============================================================================
