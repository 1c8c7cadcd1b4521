------------------------------- MODULE Chars -------------------------------
(***************************************************************************)
(* Characters are Unicode scalar values (integers), strings are tuples of  *)
(* them.  EOF is the pseudo character after the last one.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

EOF == -1
PAD == <<EOF, EOF, EOF, EOF, EOF, EOF, EOF, EOF, EOF, EOF>>

BreakSet == {10, 13, 133, 8232, 8233}
BlankSet == {9, 32}
BreakZSet == BreakSet \cup {EOF}
BlankZSet == BreakZSet \cup BlankSet
DigitSet == 48..57
HexSet == (48..57) \cup (65..70) \cup (97..102)
AlphaSet == (48..57) \cup (65..90) \cup (97..122) \cup {95, 45}
(* ;/?:@&=+$.%!~*'()  in addition to AlphaSet; with ,[] where allowed *)
UriSet == AlphaSet \cup {59, 47, 63, 58, 64, 38, 61, 43, 36, 46, 37, 33, 126, 42, 39, 40, 41}
UriFlowSet == UriSet \cup {44, 91, 93}
FlowIndSet == {44, 91, 93, 123, 125}          \* , [ ] { }

HexVal(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
HexDigit(v) == IF v < 10 THEN 48 + v ELSE 55 + v

(* Length of the UTF-8 encoding *)
ULen(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4

IsSurrogate(c) == c >= 55296 /\ c <= 57343
IsScalarValue(c) == c >= 0 /\ c <= 1114111 /\ ~IsSurrogate(c)

(* The characters a YAML stream may contain *)
Allowed(c) ==
  \/ c >= 32 /\ c <= 126
  \/ c \in {9, 10, 13, 133}
  \/ c >= 160 /\ c <= 55295
  \/ c >= 57344 /\ c <= 65533
  \/ c >= 65536 /\ c <= 1114111

(* What the emitter may write without escaping *)
Printable(c) ==
  \/ c = 10
  \/ c >= 32 /\ c <= 126
  \/ c >= 160 /\ c <= 55295
  \/ c >= 57344 /\ c <= 65533 /\ c # 65279
  \/ c >= 65536 /\ c <= 1114111

IsAscii(c) == c < 128

(* The continuation octets needed after a leading octet; 0: not a leading octet *)
Utf8Width(b) == IF b < 128 THEN 1
                ELSE IF b >= 192 /\ b < 224 THEN 2
                ELSE IF b >= 224 /\ b < 240 THEN 3
                ELSE IF b >= 240 /\ b < 248 THEN 4
                ELSE 0

(* Decodes exactly one UTF-8 encoded character given as a tuple of octets
   (the last ones continuation octets); -1 if they encode no scalar value. *)
DecodeOctets(o) ==
  CASE Len(o) = 1 -> o[1]
    [] Len(o) = 2 -> LET v == (o[1] - 192) * 64 + (o[2] - 128) IN IF v >= 128 THEN v ELSE -1
    [] Len(o) = 3 -> LET v == ((o[1] - 224) * 64 + (o[2] - 128)) * 64 + (o[3] - 128)
                     IN IF v >= 2048 /\ ~IsSurrogate(v) THEN v ELSE -1
    [] Len(o) = 4 -> LET v == (((o[1] - 240) * 64 + (o[2] - 128)) * 64 + (o[3] - 128)) * 64 + (o[4] - 128)
                     IN IF v >= 65536 /\ v <= 1114111 THEN v ELSE -1
    [] OTHER -> -1

(* UTF-8 encoding of one character *)
EncodeUtf8(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

(* UTF-16 code units of one character *)
EncodeUnits(c) ==
  IF c < 65536 THEN <<c>>
  ELSE <<55296 + ((c - 65536) \div 1024), 56320 + ((c - 65536) % 1024)>>


(* Long texts are cut in halves: concatenation copies *)
Encode8[s \in Any] ==
  IF Len(s) > 200 THEN LET h == Len(s) \div 2 IN Encode8[SubSeq(s, 1, h)] \o Encode8[SubSeq(s, h + 1, Len(s))]
  ELSE FoldLeft(LAMBDA a, c : a \o EncodeUtf8(c), <<>>, s)
Encode16[s \in Any, be \in Any] ==
  IF Len(s) > 200 THEN LET h == Len(s) \div 2 IN Encode16[SubSeq(s, 1, h), be] \o Encode16[SubSeq(s, h + 1, Len(s)), be]
  ELSE FoldLeft(LAMBDA a, c : a \o FoldLeft(LAMBDA b, u : b \o (IF be THEN <<u \div 256, u % 256>>
                                                                ELSE <<u % 256, u \div 256>>),
                                            <<>>, EncodeUnits(c)), <<>>, s)
Utf8Bytes(s) == IF \A i \in 1..Len(s) : s[i] < 128 THEN s ELSE Encode8[s]
Utf16Bytes(s, be) == Encode16[s, be]

(* Byte offset of every character of s, and of its end: 1 more entry than s *)
Offsets(s) == FoldLeft(LAMBDA a, c : Append(a, a[Len(a)] + ULen(c)), <<0>>, s)

(* Uniform shape of every token and event:
     k kind, m start and end marks <<index, line, column, index, line, column>>,
     s the strings it carries, n the numbers and flags it carries,
     x strings of an error (kind of the error, problem, context) *)
Tok(k, m, s, n) == [k |-> k, m |-> m, s |-> s, n |-> n, x |-> <<>>]
NOMARK == <<0, 0, 0>>
NONE == [k |-> "", m |-> <<>>, s |-> <<>>, n |-> <<>>, x |-> <<>>]

(* Errors: m = context mark \o problem mark; no context: the empty string *)
Err(kind, ctx, cm, pr, pm) ==
  [k |-> "ERR", m |-> cm \o pm, s |-> <<>>, n |-> <<>>, x |-> <<kind, pr, ctx>>]
ReaderErr(pr, offset, value) ==
  [k |-> "ERR", m |-> <<>>, s |-> <<>>, n |-> <<offset, value>>, x |-> <<"Reader", pr, "">>]
(* what: its kind; says: its text, empty if that is the library's own choice *)
IoErr(what, says) == [k |-> "ERR", m |-> <<>>, s |-> <<>>, n |-> <<>>, x |-> <<"Io", what, says>>]
=============================================================================
