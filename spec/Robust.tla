------------------------------- MODULE Robust -------------------------------
(***************************************************************************)
(* What can be relied on whatever the input and whatever is called: every  *)
(* call returns, with results of a bounded number altogether, and then     *)
(* with the end, or with one error, and after that with the end only.      *)
(*                                                                         *)
(*   ro.st    open, over                                                   *)
(*   ro.n     results so far (tokens, events, nodes)                       *)
(*                                                                         *)
(* Classes of results: T token, event or document; E error; Z the end;     *)
(* N nothing (iterators, at the end); D a document dumped; F not dumped.   *)
(***************************************************************************)
EXTENDS Integers

VARIABLE ro

RoInit == [st |-> "open", n |-> 0]

(* An entry of a flow sequence that is a single pair, "?,", takes two octets
   and gives four events *)
Bound(octets) == 4 * octets + 16

(* count results in a row, of so many parts *)
Delivered(count, parts, octets) == ro.st = "open" /\ ro.n + parts <= Bound(octets) /\ ro' = [ro EXCEPT !.n = @ + parts]
Failed(count) == ro.st = "open" /\ count = 1 /\ ro' = [ro EXCEPT !.st = "over"]
Ended(count) == ro' = [ro EXCEPT !.st = "over"]
Empty(count) == ro.st = "over" /\ UNCHANGED ro
Dumped(count) == UNCHANGED ro

Result(class, count, parts, octets) ==
  \/ class = "T" /\ Delivered(count, parts, octets)
  \/ class = "E" /\ Failed(count)
  \/ class = "Z" /\ Ended(count)
  \/ class = "N" /\ Empty(count)
  \/ class \in {"D", "F"} /\ Dumped(count)
=============================================================================
