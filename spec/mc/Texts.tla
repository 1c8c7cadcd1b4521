------------------------------- MODULE Texts -------------------------------
(* In models, the variable tx is the text itself *)
EXTENDS Reader
Texts[t \in Any] == t
=============================================================================
