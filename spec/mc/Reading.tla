------------------------------ MODULE Reading ------------------------------
(***************************************************************************)
(* Model of the input side: every text made of at most Length Pieces is    *)
(* scanned, parsed and composed.  What is required of the results is said  *)
(* independently of how they come about.                                   *)
(***************************************************************************)
EXTENDS Scanner, Parser, Composer, Grammar, Json

CONSTANTS Alphabet, Length

(* What texts are made of *)
Pieces ==
  CASE Alphabet = "chars" -> {<<97>>, <<32>>, <<10>>, <<45>>, <<58>>, <<63>>, <<91>>, <<93>>, <<123>>, <<125>>, <<44>>, <<35>>}
    [] Alphabet = "props" -> {<<97>>, <<32>>, <<10>>, <<38, 97>>, <<42, 97>>, <<33>>, <<33, 33>>, <<37>>, <<45, 45, 45>>, <<46, 46, 46>>, <<58, 32>>, <<45, 32>>}
    [] Alphabet = "texts" -> {<<97>>, <<32>>, <<10>>, <<9>>, <<39>>, <<34>>, <<92>>, <<124>>, <<62>>, <<43>>, <<50>>, <<233>>, <<13, 10>>}
    [] Alphabet = "words" -> {<<97>>, <<98, 32>>, <<32>>, <<10>>, <<45, 32>>, <<63, 32>>, <<58, 32>>, <<58>>, <<91>>, <<93>>, <<123>>, <<125>>, <<44, 32>>,
                              <<38, 120, 32>>, <<42, 120>>, <<33, 116, 32>>, <<39, 98, 39>>, <<124, 10, 32>>, <<45, 45, 45, 10>>, <<46, 46, 46, 10>>}
    [] Alphabet = "streams" -> {<<97>>, <<10>>, <<45, 45, 45, 32>>, <<46, 46, 46, 10>>, <<35, 99, 10>>, <<124, 10, 32, 108, 10>>, <<39>>, <<65279>>,
                                <<37, 89, 65, 77, 76, 32, 49, 46, 49, 10>>, <<37, 84, 65, 71, 32, 33, 32, 33, 98, 10>>, <<33, 116, 10>>}
    \* Enough for graphs
    [] OTHER -> {<<91>>, <<93>>, <<123>>, <<125>>, <<44>>, <<58, 32>>, <<97>>, <<38, 120, 32>>, <<38, 121, 32>>, <<42, 120, 32>>}

VARIABLES size,   \* pieces so far
          ph,     \* text, scan, parse, done
          fin, n, mt, me, ev,
          evs,    \* the events so far
          lds     \* the documents so far, and how loading ended
vars == <<tx, size, ph, fin, n, mt, me, ev, evs, lds, sc, toks, terr, ps, cs>>
(* From a text on, everything is determined: n counts the steps *)
view == <<tx.inp, n>>

TextOf(s) == MakeText([ch |-> s, fin |-> NONE, enc |-> 1])

(* Monitors of tokens and events: how many, what is open, where; all right? *)
Monitor == [n |-> 0, open |-> 0, flow |-> 0, at |-> NOMARK, ends |-> 0, wrong |-> ""]

Init == /\ tx = TextOf(<<>>) /\ size = 0 /\ ph = "text" /\ fin = FALSE /\ n = 0
        /\ mt = Monitor /\ me = [Monitor EXCEPT !.open = GrInit] /\ ev = NONE /\ evs = <<>> /\ lds = <<>>
        /\ sc = ScInit /\ toks = <<>> /\ terr = NONE /\ ps = PsInit /\ cs = CsInit

Count == n' = n + 1

----------------------------------------------------------------------------
(* Where is a byte offset?  Counted from the text alone. *)
Chars_ == SubSeq(inp, 1, Len(inp) - Len(PAD))
CharAt(o) == CHOOSE i \in 1..Len(Chars_) + 1 : off[i] = o
IsOffset(o) == \E i \in 1..Len(Chars_) + 1 : off[i] = o
(* Does a line end after character i?  CR LF is one line break. *)
EndsLine(i) == Chars_[i] \in BreakSet /\ ~(Chars_[i] = 13 /\ i < Len(Chars_) /\ Chars_[i + 1] = 10)
LineAt(i) == Cardinality({h \in 1..i - 1 : EndsLine(h)})
LineBegin(i) == LET ends == {h \in 1..i - 1 : EndsLine(h)} IN IF ends = {} THEN 1 ELSE 1 + CHOOSE h \in ends : \A g \in ends : g <= h
GoodMark(m) == /\ IsOffset(m[1])
               /\ LET i == CharAt(m[1]) IN
                  \/ m[2] = LineAt(i) /\ m[3] = i - LineBegin(i)
                  \* the last line ends where the stream does
                  \/ i = Len(Chars_) + 1 /\ i # LineBegin(i) /\ m[2] = LineAt(i) + 1 /\ m[3] = 0
(* The text of a token *)
Source(m) == SubSeq(Chars_, CharAt(m[1]), CharAt(m[4]) - 1)
Solid(s) == SelectSeq(s, LAMBDA c : c \notin BreakSet \cup BlankSet)
Undouble[s \in Any] == IF Len(s) < 2 THEN s
                       ELSE IF s[1] = 39 /\ s[2] = 39 THEN <<39>> \o Undouble[SubSeq(s, 3, Len(s))] ELSE <<s[1]>> \o Undouble[Tail(s)]
Within(s) == SubSeq(s, 2, Len(s) - 1)

(* What a scalar says besides white space is what is written *)
SaysWhatIsWritten(t) ==
  CASE t.n[1] = 1 -> Solid(t.s[1]) = Solid(Source(t.m)) /\ Solid(t.s[1]) # <<>>
    [] t.n[1] = 2 -> Solid(t.s[1]) = Solid(Undouble[Within(Source(t.m))])
    [] t.n[1] = 3 -> (92 \notin Range(Source(t.m)) => Solid(t.s[1]) = Solid(Within(Source(t.m))))
    [] OTHER -> TRUE

Watched(t) ==
  LET w == CASE t.m[1] > t.m[4] -> "ends before it starts"
             [] ~GoodMark(Sm(t)) -> "starts nowhere"
             [] ~GoodMark(Em(t)) -> "ends nowhere"
             [] t.m[1] < mt.at[1] -> "is out of order"
             [] mt.ends > 0 -> "after the end"
             [] t.k = "BE" /\ mt.open = 0 -> "closes nothing"
             [] t.k \in {"BSS", "BMS", "BE"} /\ mt.flow > 0 -> "block within flow"
             [] t.k = "SE" /\ mt.open > 0 /\ mt.flow = 0 -> "leaves open"  \* within brackets left open, the parser stops before
             [] (t.k = "SS") # (mt.n = 0) -> "does not start with the stream"
             [] t.k = "SC" /\ ~SaysWhatIsWritten(t) -> "says something else"
             [] t.k \in {"KEY", "VAL", "FEN", "BEN", "BSS", "BMS", "BE"} /\ t.m[4] - t.m[1] > 1 -> "is too long"
             [] OTHER -> ""
  IN [n |-> mt.n + 1,
      open |-> mt.open + (IF t.k \in {"BSS", "BMS"} THEN 1 ELSE IF t.k = "BE" THEN -1 ELSE 0),
      flow |-> (IF t.k \in {"FSS", "FMS"} THEN mt.flow + 1 ELSE IF t.k \in {"FSE", "FME"} /\ mt.flow > 0 THEN mt.flow - 1 ELSE mt.flow),
      at |-> Sm(t), ends |-> mt.ends + (IF t.k = "SE" THEN 1 ELSE 0), wrong |-> w]

WatchedEvent(e) ==
  LET g == GrStep(me.open, e.k)
      w == CASE g = GrBad -> "is out of place"
             [] me.ends > 0 -> "after the end"
             [] ~GoodMark(Sm(e)) -> "starts nowhere"
             [] ~GoodMark(Em(e)) -> "ends nowhere"
             [] e.m[1] > e.m[4] -> "ends before it starts"
             [] e.k = "SCALAR" /\ e.s[3] # <<>> /\ (e.n[1] = 1) # ((e.s[2] = <<>> /\ e.n[3] = 1) \/ e.s[2] = Some(<<33>>)) -> "has wrong flags"
             [] OTHER -> ""
  IN [me EXCEPT !.n = @ + 1, !.open = g, !.at = Sm(e), !.ends = @ + (IF e.k = "SE" THEN 1 ELSE 0), !.wrong = w]

----------------------------------------------------------------------------
Write(piece) ==
  /\ ph = "text" /\ size < Length
  /\ tx' = TextOf(Chars_ \o piece) /\ size' = size + 1
  /\ UNCHANGED <<ph, fin, n, mt, me, ev, evs, lds, sc, toks, terr, ps, cs>>

Read == ph = "text" /\ ph' = "scan" /\ Count /\ UNCHANGED <<tx, size, fin, mt, me, ev, evs, lds, sc, toks, terr, ps, cs>>

Still == UNCHANGED <<tx, size, ps, cs, me, ev, evs, lds>>

DeliverToken ==
  /\ ph = "scan" /\ sc.k = "" /\ Ok(sc) /\ sc.q # <<>>
  /\ LET S == Settled(sc) IN
     /\ Ok(S) /\ Deliverable(S)
     /\ LET t == Head(sc.q) IN
        /\ toks' = Append(toks, t) /\ sc' = Deliver(S) /\ mt' = Watched(t)
        /\ fin' = (t.k = "SE") /\ ph' = IF t.k = "SE" THEN "parse" ELSE "scan"
  /\ UNCHANGED terr /\ Still /\ Count

FindNext ==
  /\ ph = "scan" /\ sc.k = "" /\ Ok(sc)
  /\ IF sc.q = <<>> THEN sc' = Advance(sc)
     ELSE LET S == Settled(sc) IN IF Ok(S) THEN ~Deliverable(S) /\ sc' = Advance(S) ELSE sc' = S
  /\ UNCHANGED <<ph, fin, mt, toks, terr>> /\ Still /\ Count

Construct == /\ ph = "scan" /\ sc.k # "" /\ Ok(sc)
             /\ sc' = [Fetch(sc, en) EXCEPT !.k = ""]
             /\ UNCHANGED <<ph, fin, mt, toks, terr>> /\ Still /\ Count

ScanError == /\ ph = "scan" /\ ~Ok(sc)
             /\ terr' = sc.er /\ ph' = "parse" /\ fin' = TRUE
             /\ UNCHANGED <<sc, mt, toks>> /\ Still /\ Count

Parse ==
  /\ ph = "parse"
  /\ LET P == ParseStep(ps)
         e == P.ev
         C == IF e.k \in {"SS", "SE", "ERR"} \/ cs.er # NONE THEN cs ELSE IF e.k = "DOC" THEN ComposeStep(CsInit, e) ELSE ComposeStep(cs, e)
     IN /\ ps' = [P EXCEPT !.ev = NONE] /\ ev' = e /\ cs' = C
        /\ me' = IF e.k = "ERR" THEN me ELSE WatchedEvent(e)
        /\ evs' = Append(evs, e)
        /\ lds' = IF cs.er # NONE \/ e.k = "SS" THEN lds
                  ELSE IF e.k = "ERR" THEN Append(lds, e)
                  ELSE IF e.k = "SE" THEN lds \o Observed(CsInit)
                  ELSE IF C.er # NONE THEN Append(lds, C.er)
                  ELSE IF e.k = "DOCE" THEN lds \o Observed(C) ELSE lds
        /\ ph' = IF e.k \in {"SE", "ERR"} THEN "done" ELSE "parse"
        \* The behaviour is replayed in the implementation
        /\ e.k \in {"SE", "ERR"} => PrintT("%%" \o ToJson([text |-> Chars_, toks |-> IF terr = NONE THEN toks ELSE Append(toks, terr), evs |-> evs', lds |-> lds']))
  /\ UNCHANGED <<tx, size, fin, mt, sc, toks, terr>> /\ Count

Next == (\E piece \in Pieces : Write(piece)) \/ Read \/ DeliverToken \/ FindNext \/ Construct \/ ScanError \/ Parse
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
TokensRight == mt.wrong = ""
EventsRight == me.wrong = ""

(* Every reading ends, in an orderly way: with the end, or an error *)
Ends == ph = "done" => IF ev.k = "ERR" THEN TRUE ELSE mt.ends = 1 /\ me.ends = 1 /\ me.open = GrEnd
Proceeds == ph # "done" => ENABLED Next
(* ... and soon *)
Bound == Len(Chars_) * 6 + 8
Soon == mt.n <= Bound /\ me.n <= Bound /\ n <= 4 * Bound

(* Errors are found where the text is, the context before the problem *)
ErrorPlaced ==
  ev.k = "ERR" =>
    /\ GoodMark(Em(ev))
    /\ ev.x[3] = "" \/ (GoodMark(Sm(ev)) /\ ev.m[1] <= ev.m[4])

(* After the end nothing changes *)
StaysEnded == ph = "done" => LET P == ParseStep(ps) IN P.st = "End" /\ P.ev.k = (IF ps.st = "End" THEN "SE" ELSE P.ev.k)

(* A loaded document is a graph: every node but the root is in one before it,
   and only aliases lead to more references than that *)
Kids_(i) == cs.nodes[i].c
GraphFormed ==
  cs.done /\ cs.er = NONE =>
    LET size_ == Len(cs.nodes) IN
    /\ size_ > 0 /\ cs.ctx = <<>>
    /\ \A i \in 1..size_ :
         /\ Range(Kids_(i)) \subseteq 1..size_
         /\ cs.nodes[i].k = "NS" => Kids_(i) = <<>>
         /\ cs.nodes[i].k = "NM" => Len(Kids_(i)) % 2 = 0
         /\ i > 1 => \E h \in 1..i - 1 : i \in Range(Kids_(h))
         /\ cs.nodes[i].tag # <<>>
         \* referred to again only if there is an anchor for it
         /\ Cardinality({<<h, g>> \in (1..size_) \X (1..10) : g <= Len(Kids_(h)) /\ Kids_(h)[g] = i}) > (IF i > 1 THEN 1 ELSE 0)
              => \E a \in 1..Len(cs.an) : cs.an[a][2] = i
=============================================================================
