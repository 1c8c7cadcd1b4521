------------------------------ MODULE Scanner ------------------------------
(***************************************************************************)
(* The scanner: from characters to tokens.                                 *)
(*                                                                         *)
(*   inp, off   the characters and their byte offsets (see Input)          *)
(*   sc         the state of the scanner                                   *)
(*                                                                         *)
(* A position is a triple p, l, ls: index of the next character, line, and *)
(* index of the first character of the line, so that the column is p - ls. *)
(***************************************************************************)
EXTENDS Input

VARIABLE sc

At(i) == inp[i]
Mk(p, l, ls) == <<off[p], l, p - ls>>

NoKey == [po |-> FALSE, rq |-> FALSE, tn |-> 0, p |-> 1, l |-> 0, ls |-> 1]

ScInit == [p |-> 1, l |-> 0, ls |-> 1,  \* position
           f |-> 0,                     \* flow level
           q |-> <<>>,                  \* tokens not delivered
           d |-> 0,                     \* number of tokens delivered
           ind |-> -1, inds |-> <<>>,   \* block indentation, and those around
           al |-> TRUE,                 \* may a simple key start here?
           ks |-> <<NoKey>>,            \* possible simple key per flow level
           k |-> "ss",                  \* the construct at the position, "" if unknown yet
           er |-> NONE]

Col(S) == S.p - S.ls
Here(S) == Mk(S.p, S.l, S.ls)
KeyMark(K) == Mk(K.p, K.l, K.ls)
Fail(S, ctx, cm, pr) == [S EXCEPT !.er = Err("Scanner", ctx, cm, pr, Here(S))]
FailAt(S, ctx, cm, pr, p, l, ls) == [S EXCEPT !.er = Err("Scanner", ctx, cm, pr, Mk(p, l, ls))]
Ok(S) == S.er = NONE
Push(S, t) == [S EXCEPT !.q = Append(@, t)]

----------------------------------------------------------------------------
(* Runs of characters *)
SkipSpaces[p \in Any] == IF inp[p] = 32 THEN SkipSpaces[p + 1] ELSE p
SkipBlanks[p \in Any] == IF inp[p] \in BlankSet THEN SkipBlanks[p + 1] ELSE p
ToBreakZ[p \in Any] == IF inp[p] \in BreakZSet THEN p ELSE ToBreakZ[p + 1]
ToBlankZ[p \in Any] == IF inp[p] \in BlankZSet THEN p ELSE ToBlankZ[p + 1]
SkipAlpha[p \in Any] == IF inp[p] \in AlphaSet THEN SkipAlpha[p + 1] ELSE p

IsBreak(p) == inp[p] \in BreakSet
IsBlank(p) == inp[p] \in BlankSet
IsBreakZ(p) == inp[p] \in BreakZSet
IsBlankZ(p) == inp[p] \in BlankZSet
(* CR LF is one line break; only LS and PS are kept as they are *)
AfterBreak(p) == IF inp[p] = 13 /\ inp[p + 1] = 10 THEN p + 2 ELSE p + 1
BreakText(p) == IF inp[p] \in {8232, 8233} THEN <<inp[p]>> ELSE <<10>>
Text(a, b) == SubSeq(inp, a, b - 1)
Starts(s) == s # <<>> /\ s[1] = 10

DocIndicator(p, l, ls) ==
  /\ p = ls
  /\ \/ inp[p] = 45 /\ inp[p + 1] = 45 /\ inp[p + 2] = 45
     \/ inp[p] = 46 /\ inp[p + 1] = 46 /\ inp[p + 2] = 46
  /\ IsBlankZ(p + 3)

----------------------------------------------------------------------------
(* Simple keys *)
IsStale(S, K) == K.po /\ (K.l < S.l \/ off[K.p] + 1024 < off[S.p])

Stale(S) ==
  IF \A i \in 1..Len(S.ks) : ~IsStale(S, S.ks[i]) THEN S
  ELSE LET bad == {i \in 1..Len(S.ks) : IsStale(S, S.ks[i]) /\ S.ks[i].rq} IN
       IF bad # {} THEN
         LET i == CHOOSE i \in bad : \A j \in bad : i <= j IN
         Fail(S, "while scanning a simple key", KeyMark(S.ks[i]), "could not find expected ':'")
       ELSE [S EXCEPT !.ks = [i \in 1..Len(S.ks) |->
                                IF IsStale(S, S.ks[i]) THEN [S.ks[i] EXCEPT !.po = FALSE] ELSE S.ks[i]]]

Top(S) == S.ks[Len(S.ks)]
SetTop(S, K) == [S EXCEPT !.ks[Len(S.ks)] = K]

RemoveKey(S) ==
  LET K == Top(S) IN
  IF ~K.po THEN S
  ELSE IF K.rq THEN Fail(S, "while scanning a simple key", KeyMark(K), "could not find expected ':'")
  ELSE SetTop(S, [K EXCEPT !.po = FALSE])

SaveKey(S) ==
  IF ~S.al THEN S
  ELSE LET R == RemoveKey(S) IN
       IF ~Ok(R) THEN R
       ELSE SetTop(R, [po |-> TRUE, rq |-> S.f = 0 /\ S.ind = Col(S), tn |-> S.d + Len(S.q),
                       p |-> S.p, l |-> S.l, ls |-> S.ls])

----------------------------------------------------------------------------
(* Block indentation *)
Roll(S, col, at, kind, m) ==
  IF S.f # 0 \/ S.ind >= col THEN S
  ELSE [S EXCEPT !.inds = Append(@, S.ind), !.ind = col,
                 !.q = IF at = -1 THEN Append(@, Tok(kind, m \o m, <<>>, <<>>))
                       ELSE InsertAt(@, at - S.d + 1, Tok(kind, m \o m, <<>>, <<>>))]

Unroll[S \in Any, col \in Any] ==
  IF S.f # 0 \/ S.ind <= col THEN S
  ELSE Unroll[[S EXCEPT !.q = Append(@, Tok("BE", Here(S) \o Here(S), <<>>, <<>>)),
                        !.ind = S.inds[Len(S.inds)],
                        !.inds = SubSeq(@, 1, Len(@) - 1)], col]

----------------------------------------------------------------------------
(* What to do next: find the next construct *)
ToNext[p0 \in Any, l \in Any, ls \in Any, al \in Any, f \in Any] ==
  LET p1 == IF p0 = ls /\ inp[p0] = 65279 THEN p0 + 1 ELSE p0
      p2 == IF f # 0 \/ ~al THEN SkipBlanks[p1] ELSE SkipSpaces[p1]
      p3 == IF inp[p2] = 35 THEN ToBreakZ[p2] ELSE p2
  IN IF ~IsBreak(p3) THEN [p |-> p3, l |-> l, ls |-> ls, al |-> al]
     ELSE LET p4 == AfterBreak(p3) IN ToNext[p4, l + 1, p4, al \/ f = 0, f]

PlainStops == BlankZSet \cup {45, 63, 58, 44, 91, 93, 123, 125, 35, 38, 42, 33, 124, 62, 39, 34, 37, 64, 96}

Classify(p, ls, f) ==
  LET c == inp[p] IN
  CASE c = EOF -> "end"
    [] p = ls /\ c = 37 -> "dir"
    [] DocIndicator(p, 0, ls) -> IF c = 45 THEN "ds" ELSE "de"
    [] c = 91 -> "fss"
    [] c = 123 -> "fms"
    [] c = 93 -> "fse"
    [] c = 125 -> "fme"
    [] c = 44 -> "fen"
    [] c = 45 /\ IsBlankZ(p + 1) -> "ben"
    [] c = 63 /\ (f # 0 \/ IsBlankZ(p + 1)) -> "key"
    [] c = 58 /\ (f # 0 \/ IsBlankZ(p + 1)) -> "val"
    [] c = 42 -> "ali"
    [] c = 38 -> "anc"
    [] c = 33 -> "tag"
    [] c = 124 /\ f = 0 -> "lit"
    [] c = 62 /\ f = 0 -> "fol"
    [] c = 39 -> "sq"
    [] c = 34 -> "dq"
    [] c \notin PlainStops \/ (c = 45 /\ ~IsBlank(p + 1))
         \/ (f = 0 /\ c \in {63, 58} /\ ~IsBlankZ(p + 1)) -> "pl"
    [] OTHER -> "bad"

Advance(S) ==
  LET n == ToNext[S.p, S.l, S.ls, S.al, S.f]
      S1 == Stale([S EXCEPT !.p = n.p, !.l = n.l, !.ls = n.ls, !.al = n.al])
  IN IF ~Ok(S1) THEN S1
     ELSE LET S2 == Unroll[S1, Col(S1)] IN [S2 EXCEPT !.k = Classify(S2.p, S2.ls, S2.f)]

----------------------------------------------------------------------------
(* Simple constructs: n characters making up one token *)
Emit1(S, kind, n) ==
  [Push(S, Tok(kind, Here(S) \o Mk(S.p + n, S.l, S.ls), <<>>, <<>>)) EXCEPT !.p = @ + n]

StreamStart(S, enc) == Push(S, Tok("SS", NOMARK \o NOMARK, <<>>, <<enc>>))

StreamEnd(S) ==
  LET S0 == IF Col(S) # 0 THEN [S EXCEPT !.l = @ + 1, !.ls = S.p] ELSE S
      S1 == RemoveKey(Unroll[S0, -1])
  IN IF Ok(S1) THEN Push([S1 EXCEPT !.al = FALSE], Tok("SE", Here(S1) \o Here(S1), <<>>, <<>>)) ELSE S1

DocumentIndicator(S, kind) ==
  LET S1 == RemoveKey(Unroll[S, -1]) IN
  IF Ok(S1) THEN Emit1([S1 EXCEPT !.al = FALSE], kind, 3) ELSE S1

FlowStart(S, kind) ==
  LET S1 == SaveKey(S) IN
  IF Ok(S1) THEN Emit1([S1 EXCEPT !.ks = Append(@, NoKey), !.f = @ + 1, !.al = TRUE], kind, 1) ELSE S1

FlowEnd(S, kind) ==
  LET S1 == RemoveKey(S) IN
  IF ~Ok(S1) THEN S1
  ELSE Emit1([S1 EXCEPT !.ks = IF S.f # 0 THEN SubSeq(@, 1, Len(@) - 1) ELSE @,
                        !.f = IF S.f # 0 THEN @ - 1 ELSE 0, !.al = FALSE], kind, 1)

FlowEntry(S) ==
  LET S1 == RemoveKey(S) IN
  IF Ok(S1) THEN Emit1([S1 EXCEPT !.al = TRUE], "FEN", 1) ELSE S1

BlockEntry(S) ==
  IF S.f = 0 /\ ~S.al
  THEN Fail(S, "", NOMARK, "block sequence entries are not allowed in this context")
  ELSE LET S1 == RemoveKey(Roll(S, Col(S), -1, "BSS", Here(S))) IN
       IF Ok(S1) THEN Emit1([S1 EXCEPT !.al = TRUE], "BEN", 1) ELSE S1

KeyIndicator(S) ==
  IF S.f = 0 /\ ~S.al
  THEN Fail(S, "", NOMARK, "mapping keys are not allowed in this context")
  ELSE LET S1 == RemoveKey(Roll(S, Col(S), -1, "BMS", Here(S))) IN
       IF Ok(S1) THEN Emit1([S1 EXCEPT !.al = S.f = 0], "KEY", 1) ELSE S1

ValueIndicator(S) ==
  LET K == Top(S) IN
  IF K.po
  THEN LET m == KeyMark(K)
           S1 == [SetTop(S, [K EXCEPT !.po = FALSE])
                    EXCEPT !.q = InsertAt(@, K.tn - S.d + 1, Tok("KEY", m \o m, <<>>, <<>>))]
           S2 == Roll(S1, K.p - K.ls, K.tn, "BMS", m)
       IN Emit1([S2 EXCEPT !.al = FALSE], "VAL", 1)
  ELSE IF S.f = 0 /\ ~S.al
  THEN Fail(S, "", NOMARK, "mapping values are not allowed in this context")
  ELSE Emit1([Roll(S, Col(S), -1, "BMS", Here(S)) EXCEPT !.al = S.f = 0], "VAL", 1)

----------------------------------------------------------------------------
(* Directives.  Helpers return [p, v, e]: position, value, error or "" *)
DirCtx == "while scanning a directive"
YamlCtx == "while scanning a %YAML directive"

NumberAt[p \in Any, v \in Any, n \in Any] ==
  IF inp[p] \in DigitSet
  THEN IF n = 9 THEN [p |-> p, v |-> v, e |-> "found extremely long version number"]
       ELSE NumberAt[p + 1, v * 10 + (inp[p] - 48), n + 1]
  ELSE IF n = 0 THEN [p |-> p, v |-> v, e |-> "did not find expected version number"]
  ELSE [p |-> p, v |-> v, e |-> ""]

(* Tag handle: ! or !word or !word! *)
HandleAt(p, directive) ==
  IF inp[p] # 33 THEN [p |-> p, v |-> <<>>, e |-> "did not find expected '!'",
                      ctx |-> IF directive THEN "while scanning a tag directive" ELSE "while scanning a tag"]
  ELSE LET p1 == SkipAlpha[p + 1]
           p2 == IF inp[p1] = 33 THEN p1 + 1 ELSE p1
       IN [p |-> p2, v |-> Text(p, p2), 
           e |-> IF directive /\ p2 = p1 /\ p1 # p + 1 THEN "did not find expected '!'" ELSE "",
           ctx |-> "while parsing a tag directive"]

(* %xx escapes for the octets of one character *)
OctetsAt[p \in Any, n \in Any, o \in Any] ==
  IF n = 0 THEN LET c == DecodeOctets(o) IN
       [p |-> p, v |-> <<c>>, e |-> IF c < 0 THEN "found an incorrect trailing UTF-8 octet" ELSE ""]
  ELSE IF ~(inp[p] = 37 /\ inp[p + 1] \in HexSet /\ inp[p + 2] \in HexSet)
  THEN [p |-> p, v |-> <<>>, e |-> "did not find URI escaped octet"]
  ELSE LET b == HexVal(inp[p + 1]) * 16 + HexVal(inp[p + 2]) IN
       IF n = -1
       THEN LET w == Utf8Width(b) IN
            IF w = 0 THEN [p |-> p, v |-> <<>>, e |-> "found an incorrect leading UTF-8 octet"]
            ELSE OctetsAt[p + 3, w - 1, <<b>>]
       ELSE IF b < 128 \/ b > 191
       THEN [p |-> p, v |-> <<>>, e |-> "found an incorrect trailing UTF-8 octet"]
       ELSE OctetsAt[p + 3, n - 1, Append(o, b)]

UriAt[p \in Any, set \in Any, v \in Any] ==
  IF inp[p] \notin set THEN [p |-> p, v |-> v, e |-> ""]
  ELSE IF inp[p] # 37 THEN UriAt[p + 1, set, Append(v, inp[p])]
  ELSE LET r == OctetsAt[p, -1, <<>>] IN
       IF r.e # "" THEN r ELSE UriAt[r.p, set, v \o r.v]

(* A URI that must not be empty *)
Uri1At(p, set) ==
  LET r == UriAt[p, set, <<>>] IN
  IF r.e = "" /\ r.p = p THEN [r EXCEPT !.e = "did not find expected tag URI"] ELSE r

DirectiveEnd(S, p, tok) ==
  LET p1 == SkipBlanks[p]
      p2 == IF inp[p1] = 35 THEN ToBreakZ[p1] ELSE p1
  IN IF IsBreak(p2) THEN LET p3 == AfterBreak(p2) IN [Push(S, tok) EXCEPT !.p = p3, !.l = @ + 1, !.ls = p3]
     ELSE IF IsBreakZ(p2) THEN [Push(S, tok) EXCEPT !.p = p2]
     ELSE FailAt(S, DirCtx, Here(S), "did not find expected comment or line break", p2, S.l, S.ls)

YAMLNAME == <<89, 65, 77, 76>>
TAGNAME == <<84, 65, 71>>

VersionDirective(S, p) ==
  LET E(q, pr) == FailAt(S, YamlCtx, Here(S), pr, q, S.l, S.ls)
      a == NumberAt[SkipBlanks[p], 0, 0]
  IN IF a.e # "" THEN E(a.p, a.e)
     ELSE IF inp[a.p] # 46 THEN E(a.p, "did not find expected digit or '.' character")
     ELSE LET b == NumberAt[a.p + 1, 0, 0] IN
          IF b.e # "" THEN E(b.p, b.e)
          ELSE DirectiveEnd(S, b.p, Tok("VD", Here(S) \o Mk(b.p, S.l, S.ls), <<>>, <<a.v, b.v>>))

TagDirective(S, p) ==
  LET E(ctx, q, pr) == FailAt(S, ctx, Here(S), pr, q, S.l, S.ls)
      h == HandleAt(SkipBlanks[p], TRUE)
  IN IF h.e # "" THEN E(h.ctx, h.p, h.e)
     ELSE IF ~IsBlank(h.p) THEN E("while scanning a %TAG directive", h.p, "did not find expected whitespace")
     ELSE LET u == Uri1At(SkipBlanks[h.p], UriFlowSet) IN
          IF u.e # "" THEN E("while parsing a %TAG directive", u.p, u.e)
          ELSE IF ~IsBlankZ(u.p)
          THEN E("while scanning a %TAG directive", u.p, "did not find expected whitespace or line break")
          ELSE DirectiveEnd(S, u.p, Tok("TD", Here(S) \o Mk(u.p, S.l, S.ls), <<h.v, u.v>>, <<>>))

Directive(S) ==
  LET S1 == RemoveKey(Unroll[S, -1]) IN
  IF ~Ok(S1) THEN S1
  ELSE LET S2 == [S1 EXCEPT !.al = FALSE]
           p == SkipAlpha[S2.p + 1]
           name == Text(S2.p + 1, p)
           E(q, pr) == FailAt(S2, DirCtx, Here(S2), pr, q, S2.l, S2.ls)
       IN IF name = <<>> THEN E(p, "could not find expected directive name")
          ELSE IF ~IsBlankZ(p) THEN E(p, "found unexpected non-alphabetical character")
          ELSE IF name = YAMLNAME THEN VersionDirective(S2, p)
          ELSE IF name = TAGNAME THEN TagDirective(S2, p)
          ELSE E(p, "found unknown directive name")

----------------------------------------------------------------------------
(* Anchors, aliases, tags *)
AnchorEnds == BlankZSet \cup {63, 58, 44, 93, 125, 37, 64, 96}

Anchor(S, kind) ==
  LET S0 == SaveKey(S) IN
  IF ~Ok(S0) THEN S0
  ELSE LET S1 == [S0 EXCEPT !.al = FALSE]
           p == SkipAlpha[S.p + 1]
       IN IF p = S.p + 1 \/ inp[p] \notin AnchorEnds
          THEN FailAt(S1, IF kind = "ALI" THEN "while scanning an alias" ELSE "while scanning an anchor",
                      Here(S), "did not find expected alphabetic or numeric character", p, S.l, S.ls)
          ELSE [Push(S1, Tok(kind, Here(S) \o Mk(p, S.l, S.ls), <<Text(S.p + 1, p)>>, <<>>)) EXCEPT !.p = p]

TagEnd(S, p, handle, suffix) ==
  IF ~IsBlankZ(p) /\ ~(S.f # 0 /\ inp[p] = 44)
  THEN FailAt(S, "while scanning a tag", Here(S), "did not find expected whitespace or line break", p, S.l, S.ls)
  ELSE [Push(S, Tok("TAG", Here(S) \o Mk(p, S.l, S.ls), <<handle, suffix>>, <<>>)) EXCEPT !.p = p]

Tag(S) ==
  LET S0 == SaveKey(S) IN
  IF ~Ok(S0) THEN S0
  ELSE
  LET S1 == [S0 EXCEPT !.al = FALSE]
      E(ctx, q, pr) == FailAt(S1, ctx, Here(S), pr, q, S.l, S.ls)
  IN IF inp[S.p + 1] = 60
     THEN LET u == Uri1At(S.p + 2, UriFlowSet) IN
          IF u.e # "" THEN E("while parsing a tag", u.p, u.e)
          ELSE IF inp[u.p] # 62 THEN E("while scanning a tag", u.p, "did not find the expected '>'")
          ELSE TagEnd(S1, u.p + 1, <<>>, u.v)
     ELSE LET h == HandleAt(S.p, FALSE)
              named == Len(h.v) > 1 /\ h.v[Len(h.v)] = 33
          IN IF named
             THEN LET u == Uri1At(h.p, UriSet) IN
                  IF u.e # "" THEN E("while parsing a tag", u.p, u.e) ELSE TagEnd(S1, u.p, h.v, u.v)
             ELSE LET u == UriAt[h.p, UriSet, Tail(h.v)] IN
                  IF u.e # "" THEN E("while parsing a tag", u.p, u.e)
                  ELSE IF u.v = <<>> THEN TagEnd(S1, u.p, <<>>, <<33>>)
                  ELSE TagEnd(S1, u.p, <<33>>, u.v)

----------------------------------------------------------------------------
(* Block scalars *)
MaxOf(a, b) == IF a > b THEN a ELSE b
BlockCtx == "while scanning a block scalar"

(* Leading spaces up to the indentation, and empty lines.  ind = 0: unknown yet *)
IndentTo[p \in Any, ls \in Any, ind \in Any] == IF (ind = 0 \/ p - ls < ind) /\ inp[p] = 32 THEN IndentTo[p + 1, ls, ind] ELSE p

EmptyLines[p0 \in Any, l \in Any, ls \in Any, ind \in Any, max \in Any, br \in Any, end \in Any] ==
  LET p == IndentTo[p0, ls, ind]
      m == MaxOf(max, p - ls)
  IN IF (ind = 0 \/ p - ls < ind) /\ inp[p] = 9
     THEN [p |-> p, l |-> l, ls |-> ls, max |-> m, br |-> br, end |-> end,
           e |-> "found a tab character where an indentation space is expected"]
     ELSE IF ~IsBreak(p)
     THEN [p |-> p, l |-> l, ls |-> ls, max |-> m, br |-> br, end |-> end, e |-> ""]
     ELSE LET q == AfterBreak(p) IN EmptyLines[q, l + 1, q, ind, m, br \o BreakText(p), Mk(q, l + 1, q)]

BlockIndent(ind, parent, max) == IF ind # 0 THEN ind ELSE MaxOf(MaxOf(max, parent + 1), 1)

(* The lines: a record of the position and what was read so far *)
BlockLines[R \in Any, ind \in Any, literal \in Any] ==
  IF R.e # "" \/ R.p - R.ls # ind \/ inp[R.p] = EOF THEN R
  ELSE
  LET blank == IsBlank(R.p)
      fold == ~literal /\ Starts(R.lead) /\ ~R.lb /\ ~blank
      join == IF fold THEN (IF R.br = <<>> THEN <<32>> ELSE <<>>) ELSE R.lead
      e == ToBreakZ[R.p]
      s == R.s \o join \o R.br \o Text(R.p, e)
      nl == IsBreak(e)
      q == IF nl THEN AfterBreak(e) ELSE e
      l1 == IF nl THEN R.l + 1 ELSE R.l
      ls1 == IF nl THEN q ELSE R.ls
      x == EmptyLines[q, l1, ls1, ind, 0, <<>>, Mk(q, l1, ls1)]
  IN BlockLines[[p |-> x.p, l |-> x.l, ls |-> x.ls, s |-> s, lead |-> IF nl THEN BreakText(e) ELSE <<>>,
                 br |-> x.br, lb |-> blank, end |-> x.end, e |-> x.e], ind, literal]

BlockScalar(S, literal) ==
  LET S0 == RemoveKey(S) IN
  IF ~Ok(S0) THEN S0
  ELSE
  LET S1 == [S0 EXCEPT !.al = TRUE]
      p == S.p + 1
      sign(q) == inp[q] \in {43, 45}
      chompAt == IF sign(p) THEN p ELSE IF inp[p] \in DigitSet /\ inp[p] # 48 /\ sign(p + 1) THEN p + 1 ELSE 0
      digitAt == IF inp[p] \in DigitSet THEN p ELSE IF sign(p) /\ inp[p + 1] \in DigitSet THEN p + 1 ELSE 0
      chomp == IF chompAt = 0 THEN 0 ELSE IF inp[chompAt] = 43 THEN 1 ELSE -1
      incr == IF digitAt = 0 THEN 0 ELSE inp[digitAt] - 48
      p1 == MaxOf(MaxOf(p, chompAt + 1), digitAt + 1)
      p2 == SkipBlanks[p1]
      p3 == IF inp[p2] = 35 THEN ToBreakZ[p2] ELSE p2
  IN IF digitAt # 0 /\ incr = 0
     THEN FailAt(S1, BlockCtx, Here(S), "found an indentation indicator equal to 0", digitAt, S.l, S.ls)
     ELSE IF ~IsBreakZ(p3)
     THEN FailAt(S1, BlockCtx, Here(S), "did not find expected comment or line break", p3, S.l, S.ls)
     ELSE
     LET nl == IsBreak(p3)
         q == IF nl THEN AfterBreak(p3) ELSE p3
         l1 == IF nl THEN S.l + 1 ELSE S.l
         ls1 == IF nl THEN q ELSE S.ls
         ind0 == IF incr = 0 THEN 0 ELSE IF S.ind >= 0 THEN S.ind + incr ELSE incr
         x == EmptyLines[q, l1, ls1, ind0, 0, <<>>, Mk(q, l1, ls1)]
         ind == BlockIndent(ind0, S.ind, x.max)
         R == BlockLines[[p |-> x.p, l |-> x.l, ls |-> x.ls, s |-> <<>>, lead |-> <<>>, br |-> x.br,
                          lb |-> FALSE, end |-> x.end, e |-> x.e], ind, literal]
         v == R.s \o (IF chomp # -1 THEN R.lead ELSE <<>>) \o (IF chomp = 1 THEN R.br ELSE <<>>)
     IN IF R.e # "" THEN FailAt(S1, BlockCtx, Here(S), R.e, R.p, R.l, R.ls)
        ELSE [Push(S1, Tok("SC", Here(S) \o R.end, <<v>>, <<IF literal THEN 4 ELSE 5>>))
                EXCEPT !.p = R.p, !.l = R.l, !.ls = R.ls]

----------------------------------------------------------------------------
(* White space inside plain and quoted scalars.
   w: blanks on the current line, lead: first line break, br: further ones,
   lb: a line break was passed; ind: blanks may not be tabs before this column *)
Space[R \in Any, f \in Any, ind \in Any] ==
  IF IsBlank(R.p)
  THEN IF R.lb /\ R.p - R.ls < ind /\ inp[R.p] = 9 THEN [R EXCEPT !.e = "tab"]
       ELSE LET q == IF R.lb /\ ind > 0 THEN R.p + 1 ELSE SkipBlanks[R.p] IN
            Space[[R EXCEPT !.w = IF R.lb THEN @ ELSE @ \o Text(R.p, q), !.p = q], f, ind]
  ELSE IF IsBreak(R.p)
  THEN LET q == AfterBreak(R.p) IN
       Space[[R EXCEPT !.p = q, !.l = @ + 1, !.ls = q, !.lb = TRUE, !.w = <<>>,
                       !.lead = IF R.lb THEN @ ELSE BreakText(R.p),
                       !.br = IF R.lb THEN @ \o BreakText(R.p) ELSE @], f, ind]
  ELSE R

(* What white space contributes to the value *)
Folded(R) == IF ~R.lb THEN R.w
             ELSE IF Starts(R.lead) THEN (IF R.br = <<>> THEN <<32>> ELSE R.br)
             ELSE R.lead \o R.br
NoSpace(R) == [R EXCEPT !.w = <<>>, !.lead = <<>>, !.br = <<>>, !.lb = FALSE]

----------------------------------------------------------------------------
(* Quoted scalars *)
QuotedCtx == "while scanning a quoted scalar"
EscCtx == "while parsing a quoted scalar"

Escapes == [c \in {48, 97, 98, 116, 9, 110, 118, 102, 114, 101, 32, 34, 47, 92, 78, 95, 76, 80} |->
  CASE c = 48 -> 0 [] c = 97 -> 7 [] c = 98 -> 8 [] c = 116 -> 9 [] c = 9 -> 9 [] c = 110 -> 10
    [] c = 118 -> 11 [] c = 102 -> 12 [] c = 114 -> 13 [] c = 101 -> 27 [] c = 32 -> 32 [] c = 34 -> 34
    [] c = 47 -> 47 [] c = 92 -> 92 [] c = 78 -> 133 [] c = 95 -> 160 [] c = 76 -> 8232 [] c = 80 -> 8233]
EscapeSet == DOMAIN Escapes
CodeLen(c) == CASE c = 120 -> 2 [] c = 117 -> 4 [] c = 85 -> 8 [] OTHER -> 0

HexAt[p \in Any, n \in Any, v \in Any] == IF n = 0 THEN v ELSE HexAt[p + 1, n - 1, v * 16 + HexVal(inp[p])]
CodeAt(p, n) == IF n < 8 THEN HexAt[p, n, 0]
                ELSE IF inp[p] # 48 \/ inp[p + 1] # 48 THEN -1 ELSE HexAt[p + 2, 6, 0]

ToQuoteStop[p \in Any, stops \in Any] == IF inp[p] \in stops THEN p ELSE ToQuoteStop[p + 1, stops]
SingleStops == BlankZSet \cup {39}
DoubleStops == BlankZSet \cup {34, 92}

(* Non-blank characters; e is the error, if any, at p *)
Chunk[R \in Any, single \in Any] ==
  LET q == ToQuoteStop[R.p, IF single THEN SingleStops ELSE DoubleStops]
      s == R.s \o Text(R.p, q)
      c == inp[q]
      n == inp[q + 1]
  IN IF single
     THEN IF c = 39 /\ n = 39 THEN Chunk[[R EXCEPT !.p = q + 2, !.s = Append(s, 39)], single]
          ELSE [R EXCEPT !.p = q, !.s = s]
     ELSE IF c # 92 THEN [R EXCEPT !.p = q, !.s = s]
     ELSE IF IsBreak(q + 1)
     THEN LET b == AfterBreak(q + 1) IN [R EXCEPT !.p = b, !.l = @ + 1, !.ls = b, !.s = s, !.lb = TRUE]
     ELSE IF n \in EscapeSet THEN Chunk[[R EXCEPT !.p = q + 2, !.s = Append(s, Escapes[n])], single]
     ELSE LET k == CodeLen(n) IN
          IF k = 0 THEN [R EXCEPT !.p = q, !.e = "found unknown escape character"]
          ELSE IF \E i \in 1..k : (\A j \in 1..i - 1 : inp[q + 1 + j] \in HexSet) /\ inp[q + 1 + i] \notin HexSet
          THEN [R EXCEPT !.p = q + 2, !.e = "did not find expected hexdecimal number"]
          ELSE LET v == CodeAt(q + 2, k) IN
               IF ~IsScalarValue(v) THEN [R EXCEPT !.p = q + 2, !.e = "found invalid Unicode character escape code"]
               ELSE Chunk[[R EXCEPT !.p = q + 2 + k, !.s = Append(s, v)], single]

Quoted[R \in Any, single \in Any] ==
  IF DocIndicator(R.p, R.l, R.ls) THEN [R EXCEPT !.e = "found unexpected document indicator"]
  ELSE IF inp[R.p] = EOF THEN [R EXCEPT !.e = "found unexpected end of stream"]
  ELSE LET A == Chunk[R, single] IN
       IF A.e # "" \/ inp[A.p] = (IF single THEN 39 ELSE 34) THEN A
       ELSE LET B == Space[A, 0, 0] IN Quoted[NoSpace([B EXCEPT !.s = @ \o Folded(B)]), single]

EscErrors == {"found unknown escape character", "did not find expected hexdecimal number",
              "found invalid Unicode character escape code"}

FlowScalar(S, single) ==
  LET S0 == SaveKey(S) IN
  IF ~Ok(S0) THEN S0
  ELSE
  LET S1 == [S0 EXCEPT !.al = FALSE]
      R == Quoted[[p |-> S.p + 1, l |-> S.l, ls |-> S.ls, s |-> <<>>, w |-> <<>>, lead |-> <<>>, br |-> <<>>,
                   lb |-> FALSE, e |-> "", end |-> <<>>], single]
  IN IF R.e # ""
     THEN FailAt(S1, IF R.e \in EscErrors THEN EscCtx ELSE QuotedCtx, Here(S), R.e, R.p, R.l, R.ls)
     ELSE [Push(S1, Tok("SC", Here(S) \o Mk(R.p + 1, R.l, R.ls), <<R.s>>, <<IF single THEN 2 ELSE 3>>))
             EXCEPT !.p = R.p + 1, !.l = R.l, !.ls = R.ls]

----------------------------------------------------------------------------
(* Plain scalars *)
PlainCtx == "while scanning a plain scalar"
ColonStops == FlowIndSet \cup {63}

PlainWord[p \in Any, f \in Any] ==
  LET c == inp[p] IN
  IF c \in BlankZSet THEN p
  ELSE IF f = 0
  THEN IF c = 58 /\ inp[p + 1] \in BlankZSet THEN p ELSE PlainWord[p + 1, f]
  ELSE IF c \in FlowIndSet \/ (c = 58 /\ (inp[p + 1] \in BlankZSet \/ inp[p + 1] \in ColonStops)) THEN p
  ELSE PlainWord[p + 1, f]

PlainText[R \in Any, f \in Any, ind \in Any] ==
  IF DocIndicator(R.p, R.l, R.ls) \/ inp[R.p] = 35 THEN R
  ELSE LET q == PlainWord[R.p, f]
           A == IF q = R.p THEN R
                ELSE NoSpace([R EXCEPT !.s = @ \o Folded(R) \o Text(R.p, q), !.p = q, !.end = Mk(q, R.l, R.ls)])
       IN IF f # 0 /\ inp[q] = 58 /\ inp[q + 1] \in ColonStops THEN [A EXCEPT !.e = "found unexpected ':'"]
          ELSE IF ~(IsBlank(q) \/ IsBreak(q)) THEN A
          ELSE LET B == Space[A, f, ind] IN
               IF B.e # "" THEN [B EXCEPT !.e = "found a tab character that violates indentation"]
               ELSE IF f = 0 /\ B.p - B.ls < ind THEN B
               ELSE PlainText[B, f, ind]

PlainScalar(S) ==
  LET S0 == SaveKey(S) IN
  IF ~Ok(S0) THEN S0
  ELSE
  LET S1 == [S0 EXCEPT !.al = FALSE]
      R == PlainText[[p |-> S.p, l |-> S.l, ls |-> S.ls, s |-> <<>>, w |-> <<>>, lead |-> <<>>, br |-> <<>>,
                      lb |-> FALSE, e |-> "", end |-> Here(S)], S.f, S.ind + 1]
  IN IF R.e # "" THEN FailAt(S1, PlainCtx, Here(S), R.e, R.p, R.l, R.ls)
     ELSE [Push(S1, Tok("SC", Here(S) \o R.end, <<R.s>>, <<1>>))
             EXCEPT !.p = R.p, !.l = R.l, !.ls = R.ls, !.al = R.lb]

----------------------------------------------------------------------------
(* Delivery: a token is final once no simple key can be inserted before it *)
Blocked(S) == \E i \in 1..Len(S.ks) : S.ks[i].po /\ S.ks[i].tn = S.d
Settled(S) == Stale(S)
Deliverable(S) == S.q # <<>> /\ ~Blocked(S)
Deliver(S) == [S EXCEPT !.q = Tail(@), !.d = @ + 1]

Fetch(S, enc) ==
  CASE S.k = "ss" -> StreamStart(S, enc)
    [] S.k = "end" -> StreamEnd(S)
    [] S.k = "dir" -> Directive(S)
    [] S.k = "ds" -> DocumentIndicator(S, "DS")
    [] S.k = "de" -> DocumentIndicator(S, "DE")
    [] S.k = "fss" -> FlowStart(S, "FSS")
    [] S.k = "fms" -> FlowStart(S, "FMS")
    [] S.k = "fse" -> FlowEnd(S, "FSE")
    [] S.k = "fme" -> FlowEnd(S, "FME")
    [] S.k = "fen" -> FlowEntry(S)
    [] S.k = "ben" -> BlockEntry(S)
    [] S.k = "key" -> KeyIndicator(S)
    [] S.k = "val" -> ValueIndicator(S)
    [] S.k = "ali" -> Anchor(S, "ALI")
    [] S.k = "anc" -> Anchor(S, "ANC")
    [] S.k = "tag" -> Tag(S)
    [] S.k = "lit" -> BlockScalar(S, TRUE)
    [] S.k = "fol" -> BlockScalar(S, FALSE)
    [] S.k = "sq" -> FlowScalar(S, TRUE)
    [] S.k = "dq" -> FlowScalar(S, FALSE)
    [] S.k = "pl" -> PlainScalar(S)
    [] S.k = "bad" -> Fail(S, "while scanning for the next token", Here(S),
                           "found character that cannot start any token")
----------------------------------------------------------------------------
(* If reading fails rather than ends, nothing may be concluded from the end: a
   construct that could still go on is not delivered, nor is the end an error *)
OpenEnded == {"ben", "ds", "de", "ali", "anc", "tag", "lit", "fol", "pl"}
UpToEnd(S0, S) ==
  IF Ok(S)
  THEN inp[S.p] = EOF /\ \/ S0.k \in OpenEnded
                         \/ S0.k = "dir" /\ S.l = S0.l
                         \/ S0.k \in {"key", "val"} /\ S0.f = 0
  ELSE /\ S.er.x[1] = "Scanner" /\ S.er.m[4] = off[Len(inp) - Len(PAD) + 1]
       \* ... unless it is about what has been read: escapes that encode no character
       /\ S.er.x[2] # "found an incorrect trailing UTF-8 octet"
=============================================================================
