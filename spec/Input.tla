------------------------------- MODULE Input -------------------------------
(***************************************************************************)
(* The characters being scanned.  A model supplies a table, Texts, and the  *)
(* variable tx says which of them this behaviour is about:              *)
(*   inp  the characters of the stream followed by PAD                     *)
(*   off  byte offset of every character, and of the end of the stream     *)
(*   rd   how reading ends: NONE, or an error of the reader or the source  *)
(*   en   the encoding of the stream; 0 if none was found                  *)
(***************************************************************************)
EXTENDS Texts

VARIABLE tx

inp == Texts[tx].inp
off == Texts[tx].off
rd == Texts[tx].rd
en == Texts[tx].en
=============================================================================
