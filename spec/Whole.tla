------------------------------- MODULE Whole -------------------------------
(* Scanning a whole text, and parsing and composing all its tokens at once *)
EXTENDS Scanner, Parser, Composer

(* [ts tokens, er the error after them, or NONE] *)
ScanFrom[S \in Any, ts \in Any] ==
  IF ~Ok(S) THEN [ts |-> ts, er |-> S.er]
  ELSE IF S.k # ""
  THEN LET T == Fetch(S, en) IN
       IF rd # NONE /\ (S.k = "end" \/ UpToEnd(S, T)) THEN [ts |-> ts, er |-> rd] ELSE ScanFrom[[T EXCEPT !.k = ""], ts]
  ELSE IF S.q = <<>> THEN ScanFrom[Advance(S), ts]
  ELSE LET T == Settled(S) IN
       IF ~Ok(T) THEN [ts |-> ts, er |-> T.er]
       ELSE IF ~Deliverable(T) THEN ScanFrom[Advance(T), ts]
       ELSE IF Head(T.q).k = "SE" THEN [ts |-> Append(ts, Head(T.q)), er |-> NONE]
       ELSE ScanFrom[Deliver(T), Append(ts, Head(T.q))]
WholeText == ScanFrom[IF en = 0 /\ rd # NONE THEN [ScInit EXCEPT !.k = "end"] ELSE ScInit, <<>>]

(* The documents composed from all the tokens, and the error after them *)
ComposeFrom[P \in Any, C \in Any, all \in Any] ==
  LET Q == ParseStep(P)
      e == Q.ev
  IN IF e.k = "SE" THEN [docs |-> all, er |-> NONE]
     ELSE IF e.k = "ERR" THEN [docs |-> all, er |-> e]
     ELSE IF e.k = "SS" THEN ComposeFrom[Q, C, all]
     ELSE LET D == ComposeStep(C, e) IN
          IF D.er # NONE THEN [docs |-> all, er |-> D.er]
          ELSE IF e.k = "DOCE" THEN ComposeFrom[Q, CsInit, Append(all, D)]
          ELSE ComposeFrom[Q, D, all]
AllDocuments == ComposeFrom[PsInit, CsInit, <<>>]
=============================================================================
