------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* The reader: from bytes to characters.  The abstract result of reading:  *)
(*                                                                         *)
(*   Decode(bytes, enc, stop) = [enc, ch, fin]                             *)
(*     stop what follows the bytes: NONE (end of the input) or an I/O error *)
(*     enc  the encoding found (0 none, 1 UTF-8, 2 UTF-16LE, 3 UTF-16BE)   *)
(*     ch   the characters before the end or the first error               *)
(*     fin  NONE at the end of the input, or the error                     *)
(*                                                                         *)
(* It is a function of the bytes alone: how they arrive does not matter    *)
(* (see mc/Decoding for the implementation's buffering, refined to this). *)
(***************************************************************************)
EXTENDS Chars

EOFERR == IoErr("UnexpectedEof", "")
BadUtf8(off, b) == ReaderErr("invalid UTF-8", off, b)
BadUtf16(off, u) == ReaderErr("invalid UTF-16", off, u)
BadChar(off, c) == ReaderErr("control characters are not allowed", off, c)

Result(ch, fin) == [ch |-> ch, fin |-> fin]

(* Is octet b possible as i-th octet (i >= 2) after leading octet a (and a valid
   prefix)?  The second octet excludes overlong forms, surrogates, > U+10FFFF. *)
GoodOctet(a, i, b) ==
  IF i > 2 THEN b \in 128..191
  ELSE CASE a = 224 -> b \in 160..191
         [] a = 237 -> b \in 128..159
         [] a = 240 -> b \in 144..191
         [] a = 244 -> b \in 128..143
         [] OTHER -> b \in 128..191
Width(a) == IF a < 128 THEN 1 ELSE IF a \in 194..223 THEN 2 ELSE IF a \in 224..239 THEN 3
            ELSE IF a \in 240..244 THEN 4 ELSE 0

(* One character at byte i: [n octets, c, bad] *)
Utf8Char(b, i) ==
  LET w == Width(b[i])
      have == IF i + w - 1 <= Len(b) THEN w ELSE Len(b) - i + 1
  IN IF w = 0 THEN [n |-> 0, c |-> 0, e |-> "bad"]
     ELSE IF \E j \in 2..have : ~GoodOctet(b[i], j, b[i + j - 1]) THEN [n |-> 0, c |-> 0, e |-> "bad"]
     ELSE IF have < w THEN [n |-> 0, c |-> 0, e |-> "eof"]
     ELSE [n |-> w, c |-> DecodeOctets(SubSeq(b, i, i + w - 1)), e |-> ""]

(* The input ends, or fails, inside a character *)
Broken(stop) == IF stop = NONE THEN EOFERR ELSE stop

Utf8From[b \in Any, i \in Any, ch \in Any, stop \in Any] ==
  IF i > Len(b) THEN Result(ch, stop)
  ELSE LET r == Utf8Char(b, i) IN
       CASE r.e = "bad" -> Result(ch, BadUtf8(i - 1, b[i]))
         [] r.e = "eof" -> Result(ch, Broken(stop))
         [] OTHER -> IF Allowed(r.c) THEN Utf8From[b, i + r.n, Append(ch, r.c), stop]
                     ELSE Result(ch, BadChar(i - 1, r.c))

Unit(b, i, be) == IF be THEN b[i] * 256 + b[i + 1] ELSE b[i + 1] * 256 + b[i]

Utf16From[b \in Any, i \in Any, ch \in Any, be \in Any, stop \in Any] ==
  IF i > Len(b) THEN Result(ch, stop)
  ELSE IF i = Len(b) THEN Result(ch, Broken(stop))
  ELSE LET u == Unit(b, i, be) IN
       IF ~IsSurrogate(u)
       THEN IF Allowed(u) THEN Utf16From[b, i + 2, Append(ch, u), be, stop] ELSE Result(ch, BadChar(i - 1, u))
       ELSE IF i + 3 > Len(b) THEN Result(ch, Broken(stop))
       ELSE LET v == Unit(b, i + 2, be) IN
            IF u >= 56320 \/ ~(v >= 56320 /\ v <= 57343) THEN Result(ch, BadUtf16(i - 1, u))
            ELSE LET c == 65536 + (u - 55296) * 1024 + (v - 56320) IN
                 IF Allowed(c) THEN Utf16From[b, i + 4, Append(ch, c), be, stop] ELSE Result(ch, BadChar(i - 1, c))

PlainAscii == (32..126) \cup {9, 10, 13}

DecodeFrom(b, i, enc, stop) ==
  IF enc = 1
  THEN IF \A j \in i..Len(b) : b[j] \in PlainAscii THEN Result(SubSeq(b, i, Len(b)), stop)
       ELSE Utf8From[b, i, <<>>, stop]
  ELSE Utf16From[b, i, <<>>, enc = 3, stop]

With(enc, r) == [enc |-> enc, ch |-> r.ch, fin |-> r.fin]

Decode(b, enc, stop) ==
  IF enc # 0 THEN With(enc, DecodeFrom(b, 1, enc, stop))
  ELSE IF b = <<>> THEN With(0, Result(<<>>, stop))
  ELSE IF b[1] = 239
  THEN IF Len(b) < 3 THEN With(0, Result(<<>>, Broken(stop)))
       ELSE IF b[2] = 187 /\ b[3] = 191 THEN With(1, DecodeFrom(b, 4, 1, stop))
       ELSE With(1, DecodeFrom(b, 1, 1, stop))
  ELSE IF b[1] \in {254, 255}
  THEN IF Len(b) < 2 THEN With(0, Result(<<>>, Broken(stop)))
       ELSE IF b[1] = 255 /\ b[2] = 254 THEN With(2, DecodeFrom(b, 3, 2, stop))
       ELSE IF b[1] = 254 /\ b[2] = 255 THEN With(3, DecodeFrom(b, 3, 3, stop))
       ELSE With(0, Result(<<>>, ReaderErr("invalid byte order marker", 0, b[1] + b[2] * 256)))
  ELSE With(1, DecodeFrom(b, 1, 1, stop))

(* The table entry (see Input) of a decoded text *)
MakeText(d) ==
  LET len == Len(d.ch) IN
  [inp |-> d.ch \o PAD,
   off |-> IF \A i \in 1..len : d.ch[i] < 128 THEN [i \in 1..len + 3 |-> i - 1] ELSE Offsets(d.ch \o <<-1, -1>>),
   rd |-> d.fin, en |-> d.enc]
=============================================================================
