------------------------------ MODULE Emitter ------------------------------
(***************************************************************************)
(* The emitter: from events to text.                                       *)
(*                                                                         *)
(* Events have the uniform shape of Chars:                                 *)
(*   SS n = <<encoding>>             SE                                     *)
(*   DOC s = handle, prefix, ...     n = <<implicit, version?, major, minor>> *)
(*   DOCE n = <<implicit>>           ALIAS s = <<anchor>>                   *)
(*   SCALAR s = <<anchor?, tag?, value>>  n = <<plain implicit, quoted implicit, style>> *)
(*   SEQ, MAP s = <<anchor?, tag?>>  n = <<implicit, style>>      SEQE, MAPE *)
(*                                                                         *)
(* es is the state of the emitter:                                         *)
(*   st, sts   state, and states to return to                              *)
(*   q         events accepted but not processed: looking ahead            *)
(*   ind, inds indentation, and those around; fl flow level                *)
(*   td        tag directives in force                                     *)
(*   mc, skc   within a mapping; at a simple key                           *)
(*   col, ws, inn   column; last character white space; only indentation   *)
(*             so far on the line                                          *)
(*   oe        does the text so far need "..." before directives (1, 2) or *)
(*             the end (2)?                                                *)
(*   big, o    text written since it was last taken away                   *)
(*   g, raw    settings as used, and as given; er error, or NONE           *)
(***************************************************************************)
EXTENDS Chars

VARIABLE es

(* Settings as given: can(onical), ind(ent), wid(th), uni(code), br(eak), enc(oding);
   as used: 2..9, above twice the indentation, 1..3 (CR, LF, CR LF) *)
UNSET == -99
NOLIMIT == 2147483647
Effective(g) ==
  LET bi == IF g.ind \in 2..9 THEN g.ind ELSE 2
      w == IF g.wid = UNSET THEN 0 ELSE g.wid
  IN [can |-> g.can = 1, uni |-> g.uni = 1, bi |-> bi,
      bw |-> IF w < 0 THEN NOLIMIT ELSE IF w <= 2 * bi THEN 80 ELSE w,
      br |-> CASE g.br = 1 -> <<13>> [] g.br = 3 -> <<13, 10>> [] OTHER -> <<10>>,
      enc |-> g.enc]

EsInit(g) == [st |-> "StreamStart", sts |-> <<>>, q |-> <<>>, ind |-> -1, inds |-> <<>>, fl |-> 0, td |-> <<>>,
              mc |-> FALSE, skc |-> FALSE, col |-> 0, ws |-> TRUE, inn |-> TRUE, oe |-> 0, big |-> <<>>, o |-> <<>>,
              g |-> Effective(g), raw |-> g, er |-> NONE]

(* A setting is changed: before the stream starts it is still to be made effective;
   after that it holds as it is, from the next event on that is processed *)
Given(g, which, v) ==
  CASE which = 1 -> [g EXCEPT !.can = v]
    [] which = 2 -> [g EXCEPT !.ind = v]
    [] which = 3 -> [g EXCEPT !.wid = v]
    [] which = 4 -> [g EXCEPT !.uni = v]
    [] OTHER -> [g EXCEPT !.br = v]
Set(E, which, v) ==
  LET raw == Given(E.raw, which, v)
      now == [Effective(raw) EXCEPT !.enc = E.g.enc]
  IN IF E.st = "StreamStart" THEN [E EXCEPT !.raw = raw, !.g = now]
     ELSE [E EXCEPT !.raw = raw,
                    !.g = CASE which = 1 -> [@ EXCEPT !.can = now.can]
                            [] which = 2 -> [@ EXCEPT !.bi = now.bi]
                            [] which = 3 -> [@ EXCEPT !.bw = IF v < 0 THEN NOLIMIT ELSE v]
                            [] which = 4 -> [@ EXCEPT !.uni = now.uni]
                            [] OTHER -> [@ EXCEPT !.br = now.br]]

Refuse(E, pr) == [E EXCEPT !.er = [k |-> "ERR", m |-> <<>>, s |-> <<>>, n |-> <<>>, x |-> <<"Emitter", pr, "">>]]
Fine(E) == E.er = NONE

----------------------------------------------------------------------------
(* Writing *)
PutS(E, s) == IF Len(E.o) < 300 THEN [E EXCEPT !.o = @ \o s, !.col = @ + Len(s)]
              ELSE [E EXCEPT !.big = @ \o E.o, !.o = s, !.col = @ + Len(s)]
PutC(E, c) == PutS(E, <<c>>)
(* All the text not yet taken away *)
Output(E) == E.big \o E.o
Taken(E) == [E EXCEPT !.big = <<>>, !.o = <<>>]
Break(E) == [E EXCEPT !.o = @ \o E.g.br, !.col = 0]
WriteBreak(E, c) == IF c = 10 THEN Break(E) ELSE [E EXCEPT !.o = Append(@, c), !.col = 0]
Blanks(n) == [i \in 1..n |-> 32]

Indent(E) ==
  LET n == IF E.ind >= 0 THEN E.ind ELSE 0
      E1 == IF ~E.inn \/ E.col > n \/ (E.col = n /\ ~E.ws) THEN Break(E) ELSE E
      E2 == IF E1.col < n THEN PutS(E1, Blanks(n - E1.col)) ELSE E1
  IN [E2 EXCEPT !.ws = TRUE, !.inn = TRUE]

Space(E) == IF E.ws THEN E ELSE PutC(E, 32)
Indicator(E, s, space, ws, inn) ==
  [PutS(IF space THEN Space(E) ELSE E, s) EXCEPT !.ws = ws, !.inn = @ /\ inn]
Text1(E) == [E EXCEPT !.ws = FALSE, !.inn = FALSE]

BRACKET1 == <<91>>
BRACKET2 == <<93>>
BRACE1 == <<123>>
BRACE2 == <<125>>
COMMA == <<44>>
COLON == <<58>>
QUESTION == <<63>>
DASH == <<45>>
DASHES == <<45, 45, 45>>
DOTS == <<46, 46, 46>>
SQUOTE == <<39>>
DQUOTE == <<34>>
BANG == <<33>>

MoreIndent(E, flow, indentless) ==
  [E EXCEPT !.inds = Append(@, E.ind),
            !.ind = IF @ < 0 THEN (IF flow THEN E.g.bi ELSE 0) ELSE IF indentless THEN @ ELSE @ + E.g.bi]
LessIndent(E) == [E EXCEPT !.ind = E.inds[Len(E.inds)], !.inds = SubSeq(@, 1, Len(@) - 1)]
PopState(E) == [E EXCEPT !.st = E.sts[Len(E.sts)], !.sts = SubSeq(@, 1, Len(@) - 1)]
PushState(E, st) == [E EXCEPT !.sts = Append(@, st)]

----------------------------------------------------------------------------
(* Tags and anchors *)
TagCharSet == AlphaSet \cup {59, 47, 63, 58, 64, 38, 61, 43, 36, 46, 126, 42, 39, 40, 41}
TagChars(s, uri) ==
  FoldLeft(LAMBDA a, c :
             IF c \in TagCharSet \/ (uri /\ c \in {44, 91, 93}) THEN Append(a, c)
             ELSE a \o FoldLeft(LAMBDA b, o : b \o <<37, HexDigit(o \div 16), HexDigit(o % 16)>>, <<>>, EncodeUtf8(c)),
           <<>>, s)

AllAlpha(s) == \A i \in 1..Len(s) : s[i] \in AlphaSet
NameError(s, what) ==
  IF s = <<>> THEN what \o " value must not be empty"
  ELSE IF ~AllAlpha(s) THEN what \o " value must contain alphanumerical characters only"
  ELSE ""

(* The shorthand for a tag: <<handle, suffix>> *)
Shorthand(td, tag) ==
  LET s == {i \in 1..Len(td) : Len(td[i][2]) < Len(tag) /\ SubSeq(tag, 1, Len(td[i][2])) = td[i][2]} IN
  IF s = {} THEN <<<<>>, tag>>
  ELSE LET i == CHOOSE i \in s : \A j \in s : i <= j IN
       <<td[i][1], SubSeq(tag, Len(td[i][2]) + 1, Len(tag))>>

WriteTag(E, tag) ==
  IF tag = <<>> THEN E
  ELSE IF tag[1] = <<>>
  THEN Indicator(Text1(PutS(Indicator(E, <<33, 60>>, TRUE, FALSE, FALSE), TagChars(tag[2], TRUE))), <<62>>, FALSE, FALSE, FALSE)
  ELSE Text1(PutS(Space(E), tag[1] \o TagChars(tag[2], FALSE)))

WriteAnchor(E, anchor, alias) ==
  IF anchor = <<>> THEN E
  ELSE Text1(PutS(Indicator(E, IF alias THEN <<42>> ELSE <<38>>, TRUE, FALSE, FALSE), anchor[1]))

----------------------------------------------------------------------------
(* Analysis of a scalar *)
IsBr(c) == c \in BreakSet
FirstIndicators == {35, 44, 91, 93, 123, 125, 38, 42, 33, 124, 62, 39, 34, 37, 64, 96}
InnerIndicators == {44, 63, 91, 93, 123, 125}

Analyze(v, uni) ==
  LET L == Len(v)
      C(i) == IF i >= 1 /\ i <= L THEN v[i] ELSE EOF
      After(i) == C(i + 1) \in BlankZSet
      Before(i) == i = 1 \/ C(i - 1) \in BlankZSet
      doc == L >= 3 /\ SubSeq(v, 1, 3) \in {DASHES, DOTS}
      c1 == C(1)
      flowInd == doc \/ c1 \in FirstIndicators \/ c1 \in {63, 58} \/ (c1 = 45 /\ After(1))
                 \/ \E i \in 2..L : C(i) \in InnerIndicators \/ C(i) = 58 \/ (C(i) = 35 /\ Before(i))
      blockInd == doc \/ c1 \in FirstIndicators \/ (c1 \in {63, 58, 45} /\ After(1))
                  \/ \E i \in 2..L : (C(i) = 58 /\ After(i)) \/ (C(i) = 35 /\ Before(i))
      special == \E i \in 1..L : ~Printable(C(i)) \/ (~IsAscii(C(i)) /\ ~uni)
      breaks == \E i \in 1..L : IsBr(C(i))
      leading == c1 = 32 \/ IsBr(c1)
      trailingSpace == C(L) = 32
      trailingBreak == IsBr(C(L))
      breakSpace == \E i \in 2..L : C(i) = 32 /\ IsBr(C(i - 1))
      spaceBreak == \E i \in 2..L : IsBr(C(i)) /\ C(i - 1) = 32
      bad == spaceBreak \/ special
      noPlain == leading \/ trailingSpace \/ trailingBreak \/ breakSpace \/ bad \/ breaks
  IN IF L = 0 THEN [multi |-> FALSE, fplain |-> FALSE, bplain |-> TRUE, single |-> TRUE, block |-> FALSE]
     ELSE [multi |-> breaks, fplain |-> ~noPlain /\ ~flowInd, bplain |-> ~noPlain /\ ~blockInd,
           single |-> ~breakSpace /\ ~bad, block |-> ~trailingSpace /\ ~bad]

(* The style a scalar is written in *)
PLAIN == 1
SINGLE == 2
DOUBLE == 3
LITERAL == 4
FOLDED == 5

SelectStyle(E, ev, a, noTag) ==
  LET pi == ev.n[1] = 1
      v == ev.s[3]
      s0 == IF ev.n[3] = 0 THEN PLAIN ELSE ev.n[3]
      s1 == IF E.g.can \/ (E.skc /\ a.multi) THEN DOUBLE ELSE s0
      s2 == IF s1 = PLAIN /\ \/ (IF E.fl # 0 THEN ~a.fplain ELSE ~a.bplain)
                             \/ v = <<>> /\ (E.fl # 0 \/ E.skc)
                             \/ noTag /\ ~pi
            THEN SINGLE ELSE s1
      s3 == IF s2 = SINGLE /\ ~a.single THEN DOUBLE ELSE s2
  IN IF s3 \in {LITERAL, FOLDED} /\ (~a.block \/ E.fl # 0 \/ E.skc) THEN DOUBLE ELSE s3

----------------------------------------------------------------------------
(* Writing scalars.  v the value, i the next character, sp: after a space,
   bk: after a line break, al: may lines be folded? *)
Nth(v, i) == IF i <= Len(v) THEN v[i] ELSE EOF
Over(E) == E.col > E.g.bw

FlowBreak(E, c, bk) == [WriteBreak(IF ~bk /\ c = 10 THEN Break(E) ELSE E, c) EXCEPT !.inn = TRUE]
FlowChar(E, s, bk) == [PutS(IF bk THEN Indent(E) ELSE E, s) EXCEPT !.inn = FALSE]

PlainText[E \in Any, v \in Any, i \in Any, sp \in Any, bk \in Any, al \in Any] ==
  IF i > Len(v) THEN E
  ELSE LET c == v[i] IN
       IF c = 32
       THEN PlainText[IF al /\ ~sp /\ Over(E) /\ Nth(v, i + 1) # 32 THEN Indent(E) ELSE PutC(E, c),
                      v, i + 1, TRUE, bk, al]
       ELSE IF IsBr(c) THEN PlainText[FlowBreak(E, c, bk), v, i + 1, sp, TRUE, al]
       ELSE PlainText[FlowChar(E, <<c>>, bk), v, i + 1, FALSE, FALSE, al]

PlainScalar(E, v, al) ==
  Text1(PlainText[IF v # <<>> \/ E.fl # 0 THEN Space(E) ELSE E, v, 1, FALSE, FALSE, al])

SingleText[E \in Any, v \in Any, i \in Any, sp \in Any, bk \in Any, al \in Any] ==
  IF i > Len(v) THEN IF bk THEN Indent(E) ELSE E
  ELSE LET c == v[i] IN
       IF c = 32
       THEN SingleText[IF al /\ ~sp /\ Over(E) /\ i # 1 /\ i # Len(v) /\ Nth(v, i + 1) # 32 THEN Indent(E) ELSE PutC(E, c),
                       v, i + 1, TRUE, bk, al]
       ELSE IF IsBr(c) THEN SingleText[FlowBreak(E, c, bk), v, i + 1, sp, TRUE, al]
       ELSE SingleText[FlowChar(E, IF c = 39 THEN <<39, 39>> ELSE <<c>>, bk), v, i + 1, FALSE, FALSE, al]

SingleQuoted(E, v, al) ==
  Text1(Indicator(SingleText[Indicator(E, SQUOTE, TRUE, FALSE, FALSE), v, 1, FALSE, FALSE, al], SQUOTE, FALSE, FALSE, FALSE))

Escaped(c, uni) == ~Printable(c) \/ (~uni /\ ~IsAscii(c)) \/ IsBr(c) \/ c \in {34, 92}

HexDigits[v \in Any, n \in Any] == IF n = 0 THEN <<>> ELSE Append(HexDigits[v \div 16, n - 1], HexDigit(v % 16))

Escape(c) ==
  <<92>> \o
  (CASE c = 0 -> <<48>> [] c = 7 -> <<97>> [] c = 8 -> <<98>> [] c = 9 -> <<116>> [] c = 10 -> <<110>>
     [] c = 11 -> <<118>> [] c = 12 -> <<102>> [] c = 13 -> <<114>> [] c = 27 -> <<101>> [] c = 34 -> <<34>>
     [] c = 92 -> <<92>> [] c = 133 -> <<78>> [] c = 160 -> <<95>> [] c = 8232 -> <<76>> [] c = 8233 -> <<80>>
     [] c <= 255 -> <<120>> \o HexDigits[c, 2]
     [] c > 255 /\ c <= 65535 -> <<117>> \o HexDigits[c, 4]
     [] OTHER -> <<85>> \o HexDigits[c, 8])

DoubleText[E \in Any, v \in Any, i \in Any, sp \in Any, al \in Any] ==
  IF i > Len(v) THEN E
  ELSE LET c == v[i] IN
       IF Escaped(c, E.g.uni) THEN DoubleText[PutS(E, Escape(c)), v, i + 1, FALSE, al]
       ELSE IF c = 32
       THEN DoubleText[IF al /\ ~sp /\ Over(E) /\ i # 1 /\ i # Len(v)
                       THEN IF v[i + 1] = 32 THEN PutC(Indent(E), 92) ELSE Indent(E)
                       ELSE PutC(E, c), v, i + 1, TRUE, al]
       ELSE DoubleText[PutC(E, c), v, i + 1, FALSE, al]

DoubleQuoted(E, v, al) ==
  Text1(Indicator(DoubleText[Indicator(E, DQUOTE, TRUE, FALSE, FALSE), v, 1, FALSE, al], DQUOTE, FALSE, FALSE, FALSE))

(* The header of a block scalar: indentation hint, chomping hint *)
BlockHeader(E0, s, v) ==
  LET E == Indicator(E0, s, TRUE, FALSE, FALSE)
      L == Len(v)
      E1 == IF v # <<>> /\ (v[1] = 32 \/ IsBr(v[1])) THEN Indicator(E, <<48 + E.g.bi>>, FALSE, FALSE, FALSE) ELSE E
      strip == v = <<>> \/ ~IsBr(v[L])
      keep == ~strip /\ (L = 1 \/ IsBr(v[L - 1]))
      E2 == IF strip THEN Indicator(E1, DASH, FALSE, FALSE, FALSE)
            ELSE IF keep THEN Indicator(E1, <<43>>, FALSE, FALSE, FALSE) ELSE E1
  IN [Break(E2) EXCEPT !.oe = IF keep THEN 2 ELSE 0, !.inn = TRUE, !.ws = TRUE]

LiteralText[E \in Any, v \in Any, i \in Any, bk \in Any] ==
  IF i > Len(v) THEN E
  ELSE LET c == v[i] IN
       IF IsBr(c) THEN LiteralText[[WriteBreak(E, c) EXCEPT !.inn = TRUE], v, i + 1, TRUE]
       ELSE LiteralText[FlowChar(E, <<c>>, bk), v, i + 1, FALSE]

Literal(E, v) == LiteralText[BlockHeader(E, <<124>>, v), v, 1, TRUE]

(* The character the next line that is not empty starts with *)
NextLine[v \in Any, i \in Any] == IF i > Len(v) THEN EOF ELSE IF IsBr(v[i]) THEN NextLine[v, i + 1] ELSE v[i]

(* ls: does the current line start with a blank? *)
FoldedText[E \in Any, v \in Any, i \in Any, bk \in Any, ls \in Any] ==
  IF i > Len(v) THEN E
  ELSE LET c == v[i] IN
       IF IsBr(c)
       THEN LET E1 == IF ~bk /\ ~ls /\ c = 10 /\ NextLine[v, i + 1] \notin BlankZSet THEN Break(E) ELSE E
            IN FoldedText[[WriteBreak(E1, c) EXCEPT !.inn = TRUE], v, i + 1, TRUE, ls]
       ELSE LET E1 == IF bk THEN Indent(E) ELSE E
                ls1 == IF bk THEN c \in BlankSet ELSE ls
                E2 == IF ~bk /\ ~ls1 /\ c = 32 /\ Nth(v, i + 1) # 32 /\ Over(E1) THEN Indent(E1) ELSE PutC(E1, c)
            IN FoldedText[[E2 EXCEPT !.inn = FALSE], v, i + 1, FALSE, ls1]

Folded(E, v) == FoldedText[BlockHeader(E, <<62>>, v), v, 1, TRUE, TRUE]

WriteScalar(E, v, style) ==
  CASE style = PLAIN -> PlainScalar(E, v, ~E.skc)
    [] style = SINGLE -> SingleQuoted(E, v, ~E.skc)
    [] style = DOUBLE -> DoubleQuoted(E, v, ~E.skc)
    [] style = LITERAL -> Literal(E, v)
    [] style = FOLDED -> Folded(E, v)

----------------------------------------------------------------------------
(* What is wrong with an event, whatever the state; "" if nothing *)
HasProps(ev) == ev.k \in {"SCALAR", "SEQ", "MAP"}
(* Is the tag to be written? *)
TagWanted(E, ev) == ev.s[2] # <<>> /\ (E.g.can \/ (ev.n[1] = 0 /\ (ev.k = "SCALAR" => ev.n[2] = 0)))
EventError(E, ev) ==
  IF ev.k = "ALIAS" THEN NameError(ev.s[1], "alias")
  ELSE IF HasProps(ev)
  THEN LET e == IF ev.s[1] = <<>> THEN "" ELSE NameError(ev.s[1][1], "anchor") IN
       IF e # "" THEN e ELSE IF TagWanted(E, ev) /\ ev.s[2] = <<<<>>>> THEN "tag value must not be empty" ELSE ""
  ELSE ""

TagOf(E, ev) == IF TagWanted(E, ev) THEN Shorthand(E.td, ev.s[2][1]) ELSE <<>>

Follows(E, k) == E.q # <<>> /\ E.q[1].k = k
EmptyCollection(E, ev) == (ev.k = "SEQ" /\ Follows(E, "SEQE")) \/ (ev.k = "MAP" /\ Follows(E, "MAPE"))

Bytes(s) == FoldLeft(LAMBDA a, c : a + ULen(c), 0, s)

(* Can a node be written as a simple key? *)
IsSimpleKey(E, ev) ==
  LET tag == IF HasProps(ev) THEN TagOf(E, ev) ELSE <<>>
      props == IF ~HasProps(ev) THEN 0
               ELSE (IF ev.s[1] = <<>> THEN 0 ELSE Len(ev.s[1][1])) + (IF tag = <<>> THEN 0 ELSE Bytes(tag[1]) + Bytes(tag[2]))
  IN CASE ev.k = "ALIAS" -> Len(ev.s[1]) <= 128
       [] ev.k = "SCALAR" -> ~Analyze(ev.s[3], E.g.uni).multi /\ props + Bytes(ev.s[3]) <= 128
       [] ev.k \in {"SEQ", "MAP"} -> EmptyCollection(E, ev) /\ props <= 128
       [] OTHER -> FALSE

EmitNode(E0, ev, mapping, simple) ==
  LET E == [E0 EXCEPT !.mc = mapping, !.skc = simple] IN
  CASE ev.k = "ALIAS" ->
         LET E1 == WriteAnchor(E, ev.s, TRUE) IN PopState(IF simple THEN PutC(E1, 32) ELSE E1)
    [] ev.k = "SCALAR" ->
         LET a == Analyze(ev.s[3], E.g.uni)
             tag == TagOf(E, ev)
             noTag == tag = <<>>
         IN IF noTag /\ ev.n[1] = 0 /\ ev.n[2] = 0
            THEN Refuse(E, "neither tag nor implicit flags are specified")
            ELSE LET style == SelectStyle(E, ev, a, noTag)
                     t == IF noTag /\ ev.n[2] = 0 /\ style # PLAIN THEN <<BANG, <<>>>> ELSE tag
                     E1 == WriteTag(WriteAnchor(E, ev.s[1], FALSE), t)
                 IN PopState(LessIndent(WriteScalar(MoreIndent(E1, TRUE, FALSE), ev.s[3], style)))
    [] ev.k \in {"SEQ", "MAP"} ->
         LET E1 == WriteTag(WriteAnchor(E, ev.s[1], FALSE), TagOf(E, ev))
             flow == E.fl # 0 \/ E.g.can \/ ev.n[2] = 2 \/ EmptyCollection(E, ev)
         IN [E1 EXCEPT !.st = CASE ev.k = "SEQ" /\ flow -> "FlowSequenceFirstItem"
                                [] ev.k = "SEQ" /\ ~flow -> "BlockSequenceFirstItem"
                                [] ev.k = "MAP" /\ flow -> "FlowMappingFirstKey"
                                [] OTHER -> "BlockMappingFirstKey"]
    [] OTHER -> Refuse(E, "expected SCALAR, SEQUENCE-START, MAPPING-START, or ALIAS")

----------------------------------------------------------------------------
(* One operator per state *)
EmitStreamStart(E, ev) ==
  IF ev.k # "SS" THEN Refuse(E, "expected STREAM-START")
  ELSE LET enc == IF E.g.enc # 0 THEN E.g.enc ELSE IF ev.n[1] # 0 THEN ev.n[1] ELSE 1 IN
       [E EXCEPT !.g.enc = enc, !.oe = 0, !.ind = -1, !.col = 0, !.ws = TRUE, !.inn = TRUE,
                 !.o = IF enc = 1 THEN @ ELSE Append(@, 65279), !.st = "FirstDocumentStart"]

VersionError(ev) == ev.n[2] = 1 /\ ~(ev.n[3] = 1 /\ ev.n[4] \in {1, 2})

HandleError(h) ==
  IF h = <<>> THEN "tag handle must not be empty"
  ELSE IF h[1] # 33 THEN "tag handle must start with '!'"
  ELSE IF h[Len(h)] # 33 THEN "tag handle must end with '!'"
  ELSE IF Len(h) > 2 /\ ~AllAlpha(SubSeq(h, 2, Len(h) - 1)) THEN "tag handle must contain alphanumerical characters only"
  ELSE ""

RECURSIVE DirectiveError(_, _)
DirectiveError(s, i) ==
  IF 2 * i > Len(s) THEN ""
  ELSE LET h == s[2 * i - 1] IN
       IF HandleError(h) # "" THEN HandleError(h)
       ELSE IF s[2 * i] = <<>> THEN "tag prefix must not be empty"
       ELSE IF \E j \in 1..i - 1 : s[2 * j - 1] = h THEN "duplicate %TAG directive"
       ELSE DirectiveError(s, i + 1)

EmitterDefaultTags == <<<<<<33>>, <<33>>>>,
                        <<<<33, 33>>, <<116, 97, 103, 58, 121, 97, 109, 108, 46, 111, 114, 103, 44, 50, 48, 48, 50, 58>>>>>>
PairUp(s) == [i \in 1..Len(s) \div 2 |-> <<s[2 * i - 1], s[2 * i]>>]

(* Without "---" this document would be no document *)
Vanishes(E) == Follows(E, "SCALAR") /\ LET ev == E.q[1] IN
               ev.s[1] = <<>> /\ ev.s[3] = <<>> /\ ev.n[1] = 1 /\ ev.n[3] \in {0, 1}

PERCENTYAML == <<37, 89, 65, 77, 76>>
PERCENTTAG == <<37, 84, 65, 71>>

EmitDocumentStart(E, ev, first) ==
  IF ev.k = "DOC"
  THEN IF VersionError(ev) THEN Refuse(E, "incompatible %YAML directive")
       ELSE IF DirectiveError(ev.s, 1) # "" THEN Refuse(E, DirectiveError(ev.s, 1))
       ELSE LET own == PairUp(ev.s)
                td == own \o SelectSeq(EmitterDefaultTags, LAMBDA d : ~\E i \in 1..Len(own) : own[i][1] = d[1])
                directives == ev.n[2] = 1 \/ own # <<>>
                E1 == IF directives /\ E.oe # 0 THEN Indent(Indicator(E, DOTS, TRUE, FALSE, FALSE)) ELSE E
                E2 == IF ev.n[2] = 0 THEN E1
                      ELSE Indent(Indicator(Indicator(E1, PERCENTYAML, TRUE, FALSE, FALSE),
                                            IF ev.n[4] = 1 THEN <<49, 46, 49>> ELSE <<49, 46, 50>>, TRUE, FALSE, FALSE))
                E3 == FoldLeft(LAMBDA S, t : Indent(Text1(PutS(Text1(PutS(Space(Indicator(S, PERCENTTAG, TRUE, FALSE, FALSE)), t[1])),
                                                               <<32>> \o TagChars(t[2], TRUE)))),
                               E2, own)
                explicit == ev.n[1] = 0 \/ ~first \/ E.g.can \/ directives \/ Vanishes(E)
                E4 == IF ~explicit THEN E3
                      ELSE LET S == Indicator(Indent(E3), DASHES, TRUE, FALSE, FALSE) IN IF E.g.can THEN Indent(S) ELSE S
            IN [E4 EXCEPT !.st = "DocumentContent", !.oe = 0, !.td = td]
  ELSE IF ev.k = "SE"
  THEN LET E1 == IF E.oe = 2 THEN Indent([Indicator(E, DOTS, TRUE, FALSE, FALSE) EXCEPT !.oe = 0]) ELSE E
       IN [E1 EXCEPT !.st = "End"]
  ELSE Refuse(E, "expected DOCUMENT-START or STREAM-END")

EmitDocumentContent(E, ev) == EmitNode(PushState(E, "DocumentEnd"), ev, FALSE, FALSE)

EmitDocumentEnd(E, ev) ==
  IF ev.k # "DOCE" THEN Refuse(E, "expected DOCUMENT-END")
  ELSE LET E1 == Indent(E)
           E2 == IF ev.n[1] = 0 THEN Indent([Indicator(E1, DOTS, TRUE, FALSE, FALSE) EXCEPT !.oe = 0])
                 ELSE [E1 EXCEPT !.oe = IF @ = 0 THEN 1 ELSE @]
       IN [E2 EXCEPT !.st = "DocumentStart"]

OpenFlow(E, s) == [MoreIndent(Indicator(E, s, TRUE, TRUE, FALSE), TRUE, FALSE) EXCEPT !.fl = @ + 1]
CloseFlow(E, s, first) ==
  LET E1 == LessIndent([E EXCEPT !.fl = @ - 1])
      E2 == IF E.g.can /\ ~first THEN Indent(Indicator(E1, COMMA, FALSE, FALSE, FALSE)) ELSE E1
  IN PopState(Indicator(E2, s, FALSE, FALSE, FALSE))
FlowLine(E) == IF E.g.can \/ Over(E) THEN Indent(E) ELSE E

EmitFlowSequenceItem(E0, ev, first) ==
  LET E == IF first THEN OpenFlow(E0, BRACKET1) ELSE E0 IN
  IF ev.k = "SEQE" THEN CloseFlow(E, BRACKET2, first)
  ELSE LET E1 == FlowLine(IF first THEN E ELSE Indicator(E, COMMA, FALSE, FALSE, FALSE)) IN
       EmitNode(PushState(E1, "FlowSequenceItem"), ev, FALSE, FALSE)

EmitFlowMappingKey(E0, ev, first) ==
  LET E == IF first THEN OpenFlow(E0, BRACE1) ELSE E0 IN
  IF ev.k = "MAPE" THEN CloseFlow(E, BRACE2, first)
  ELSE LET E1 == FlowLine(IF first THEN E ELSE Indicator(E, COMMA, FALSE, FALSE, FALSE)) IN
       IF ~E.g.can /\ IsSimpleKey(E, ev)
       THEN EmitNode(PushState(E1, "FlowMappingSimpleValue"), ev, TRUE, TRUE)
       ELSE EmitNode(PushState(Indicator(E1, QUESTION, TRUE, FALSE, FALSE), "FlowMappingValue"), ev, TRUE, FALSE)

EmitFlowMappingValue(E, ev, simple) ==
  LET E1 == IF simple THEN Indicator(E, COLON, FALSE, FALSE, FALSE)
            ELSE Indicator(FlowLine(E), COLON, TRUE, FALSE, FALSE)
  IN EmitNode(PushState(E1, "FlowMappingKey"), ev, TRUE, FALSE)

EmitBlockSequenceItem(E0, ev, first) ==
  LET E == IF first THEN MoreIndent(E0, FALSE, E0.mc /\ ~E0.inn) ELSE E0 IN
  IF ev.k = "SEQE" THEN PopState(LessIndent(E))
  ELSE EmitNode(PushState(Indicator(Indent(E), DASH, TRUE, FALSE, TRUE), "BlockSequenceItem"), ev, FALSE, FALSE)

EmitBlockMappingKey(E0, ev, first) ==
  LET E == IF first THEN MoreIndent(E0, FALSE, FALSE) ELSE E0 IN
  IF ev.k = "MAPE" THEN PopState(LessIndent(E))
  ELSE IF IsSimpleKey(E, ev)
  THEN EmitNode(PushState(Indent(E), "BlockMappingSimpleValue"), ev, TRUE, TRUE)
  ELSE EmitNode(PushState(Indicator(Indent(E), QUESTION, TRUE, FALSE, TRUE), "BlockMappingValue"), ev, TRUE, FALSE)

EmitBlockMappingValue(E, ev, simple) ==
  LET E1 == IF simple THEN Indicator(E, COLON, FALSE, FALSE, FALSE)
            ELSE Indicator(Indent(E), COLON, TRUE, FALSE, TRUE)
  IN EmitNode(PushState(E1, "BlockMappingKey"), ev, TRUE, FALSE)

----------------------------------------------------------------------------
(* The queue: an event that starts something waits for those after it *)
Delta(e) == IF e.k \in {"SS", "DOC", "SEQ", "MAP"} THEN 1 ELSE IF e.k \in {"SE", "DOCE", "SEQE", "MAPE"} THEN -1 ELSE 0
Levels(q) == FoldLeft(LAMBDA a, e : Append(a, (IF a = <<>> THEN 0 ELSE a[Len(a)]) + Delta(e)), <<>>, q)
Wanted(ev) == CASE ev.k = "DOC" -> 1 [] ev.k = "SEQ" -> 2 [] ev.k = "MAP" -> 3 [] OTHER -> 0
Ready(E) == /\ E.q # <<>>
            /\ IF Len(E.q) > Wanted(E.q[1]) THEN TRUE
               ELSE LET l == Levels(E.q) IN \E i \in 1..Len(l) : l[i] = 0

Step(E, ev) ==
  CASE E.st = "StreamStart" -> EmitStreamStart(E, ev)
    [] E.st = "FirstDocumentStart" -> EmitDocumentStart(E, ev, TRUE)
    [] E.st = "DocumentStart" -> EmitDocumentStart(E, ev, FALSE)
    [] E.st = "DocumentContent" -> EmitDocumentContent(E, ev)
    [] E.st = "DocumentEnd" -> EmitDocumentEnd(E, ev)
    [] E.st = "FlowSequenceFirstItem" -> EmitFlowSequenceItem(E, ev, TRUE)
    [] E.st = "FlowSequenceItem" -> EmitFlowSequenceItem(E, ev, FALSE)
    [] E.st = "FlowMappingFirstKey" -> EmitFlowMappingKey(E, ev, TRUE)
    [] E.st = "FlowMappingKey" -> EmitFlowMappingKey(E, ev, FALSE)
    [] E.st = "FlowMappingSimpleValue" -> EmitFlowMappingValue(E, ev, TRUE)
    [] E.st = "FlowMappingValue" -> EmitFlowMappingValue(E, ev, FALSE)
    [] E.st = "BlockSequenceFirstItem" -> EmitBlockSequenceItem(E, ev, TRUE)
    [] E.st = "BlockSequenceItem" -> EmitBlockSequenceItem(E, ev, FALSE)
    [] E.st = "BlockMappingFirstKey" -> EmitBlockMappingKey(E, ev, TRUE)
    [] E.st = "BlockMappingKey" -> EmitBlockMappingKey(E, ev, FALSE)
    [] E.st = "BlockMappingSimpleValue" -> EmitBlockMappingValue(E, ev, TRUE)
    [] E.st = "BlockMappingValue" -> EmitBlockMappingValue(E, ev, FALSE)
    [] E.st = "End" -> Refuse(E, "expected nothing after STREAM-END")

(* Processes the first event of the queue *)
EmitStep(E) ==
  LET ev == E.q[1]
      e == EventError(E, ev)
      E1 == [E EXCEPT !.q = Tail(@)]
  IN IF e # "" THEN Refuse(E1, e) ELSE Step(E1, ev)

(* After which events everything written must have reached the sink *)
Completes(ev) == ev.k \in {"DOCE", "SE"}

OutBytes(s, enc) == IF enc \in {2, 3} THEN Utf16Bytes(s, enc = 3) ELSE Utf8Bytes(s)
=============================================================================
