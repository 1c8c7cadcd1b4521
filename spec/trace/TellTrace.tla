----------------------------- MODULE TellTrace -----------------------------
(***************************************************************************)
(* Trace validation of the tool that tells the events of a text: the lines *)
(* it writes, then how it exits.  It may be given the text several times.  *)
(***************************************************************************)
EXTENDS Whole, Notation, ErrorText

LANE == 500

VARIABLES n, j, ph, r   \* steps so far in this lane; lines matched; phase: scan, parse; times told
vars == <<tx, n, j, ph, r, sc, toks, terr, ps, cs>>
view == <<tx, n>>

Case == Cases[tx]
Obs == Case.o
Got == IF j + 1 <= Len(Obs) THEN Obs[j + 1] ELSE NONE

Init == /\ tx \in {i \in 1..N : i % LANE = 1}
        /\ n = 0 /\ j = 0 /\ ph = "scan" /\ r = 0
        /\ sc = ScInit /\ toks = <<>> /\ terr = NONE /\ ps = PsInit /\ cs = CsInit

Finish(verdict, why, exp) ==
  /\ IF verdict THEN TLCSet(1, TLCGet(1) + 1)
     ELSE /\ TLCSet(2, TLCGet(2) + 1)
          /\ PrintT("@@" \o ToJson([id |-> Case.id, at |-> j + 1, why |-> why, want |-> <<exp>>, got |-> <<Got>>]))
  /\ tx < N /\ tx % LANE # 0
  /\ tx' = tx + 1 /\ n' = n + 1 /\ j' = 0 /\ ph' = "scan" /\ r' = 0
  /\ toks' = <<>> /\ terr' = NONE /\ ps' = PsInit /\ UNCHANGED <<sc, cs>>

Scan == /\ ph = "scan"
        /\ LET w == WholeText IN toks' = w.ts /\ terr' = w.er
        /\ ph' = "parse" /\ n' = n + 1 /\ UNCHANGED <<tx, j, r, sc, ps, cs>>

Complaint(e) == "Parse error: " \o Rendered(e, "")
(* I/O errors say what the library of the language does *)
Complains(e) == IF e.x[1] = "Io" THEN Got.k = "EXIT" /\ Got.n = <<1>> /\ j + 1 = Len(Obs) /\ SubSeq(Got.x, 1, Len(Complaint(e))) = Complaint(e)
                ELSE Got.k = "EXIT" /\ Got.n = <<1>> /\ j + 1 = Len(Obs) /\ Got.x = Complaint(e) \o "\n"
(* What cannot be read may be met ahead of what comes before it *)
CutShort == rd # NONE /\ Complains(rd)

Exit(code, says) == Got.k = "EXIT" /\ Got.n = <<code>> /\ j + 1 = Len(Obs) /\ Got.x = says

Tell ==
  /\ ph = "parse"
  /\ LET P == ParseStep(ps)
         e == P.ev
     IN IF e.k = "ERR"
        THEN IF Complains(e) \/ CutShort THEN Finish(TRUE, "", NONE) ELSE Finish(FALSE, "should fail", [e EXCEPT !.s = Complaint(e)])
        ELSE LET l == Utf8Bytes(LineOf(e)) IN
             IF CutShort THEN Finish(TRUE, "", NONE)
             ELSE IF Got.k # "LINE" \/ Got.s # l THEN Finish(FALSE, "differs", [e EXCEPT !.s = l])
             ELSE /\ j' = j + 1 /\ n' = n + 1
                  /\ ph' = IF e.k = "SE" /\ r + 1 = Case.times THEN "exit" ELSE "parse"
                  /\ r' = IF e.k = "SE" THEN r + 1 ELSE r
                  /\ ps' = IF e.k = "SE" THEN PsInit ELSE [P EXCEPT !.ev = NONE]
                  /\ UNCHANGED <<tx, sc, toks, terr, cs>>

Done == ph = "exit" /\ IF Exit(0, "") THEN Finish(TRUE, "", NONE) ELSE Finish(FALSE, "should succeed", NONE)

Next == Scan \/ Tell \/ Done
Spec == Init /\ [][Next]_vars

ASSUME TLCSet(1, 0) /\ TLCSet(2, 0)
Report == PrintT("##" \o ToJson([accepted |-> TLCGet(1), rejected |-> TLCGet(2), cases |-> N]))
=============================================================================
