----------------------------- MODULE Decoding -----------------------------
(***************************************************************************)
(* Model of decoding as the bytes come in: in any pieces, with             *)
(* interruptions, until the source ends or fails.  However they come, the  *)
(* result is that of decoding all of them at once.                         *)
(***************************************************************************)
EXTENDS Reader

CONSTANTS Length   \* of the input, in bytes

VARIABLES bytes,   \* all that the source has
          given,   \* how many of them have arrived
          over,    \* has the source said that there are no more, or failed?
          used,    \* bytes decoded
          enc, ch, \* encoding found (0: not yet); characters
          fin      \* "" or what decoding came to
vars == <<bytes, given, over, used, enc, ch, fin>>

(* Bytes that matter to decoding: parts of characters, marks, surrogates *)
Bytes == {0, 10, 65, 128, 159, 160, 191, 194, 195, 216, 220, 224, 237, 239, 187, 240, 244, 254, 255}
Failure == IoErr("Other", "source failed")
Stops == {NONE, Failure}

Init == /\ bytes \in UNION {[1..n -> Bytes] : n \in 0..Length}
        /\ given = 0 /\ over = FALSE /\ used = 0 /\ enc = 0 /\ ch = <<>> /\ fin = "" 

Got == SubSeq(bytes, 1, given)

Receive == /\ ~over /\ fin = "" /\ given < Len(bytes)
           /\ \E n \in 1..Len(bytes) - given : given' = given + n
           /\ UNCHANGED <<bytes, over, used, enc, ch, fin>>
SourceEnds == /\ ~over /\ fin = "" /\ given = Len(bytes) /\ over' = TRUE
              /\ UNCHANGED <<bytes, given, used, enc, ch, fin>>

(* The encoding: as soon as it is certain *)
Is(b) == Len(Got) >= Len(b) /\ SubSeq(Got, 1, Len(b)) = b
Found(e, skip) == enc' = e /\ used' = skip /\ UNCHANGED <<bytes, given, over, ch, fin>>
Ends(f) == fin' = f /\ UNCHANGED <<bytes, given, over, used, enc, ch>>
Detect ==
  /\ enc = 0 /\ fin = ""
  /\ CASE given = 0 -> over /\ Ends("end")
       [] given > 0 /\ bytes[1] \notin {239, 254, 255} -> Found(1, 0)
       [] Is(<<239, 187, 191>>) -> Found(1, 3)
       [] Is(<<255, 254>>) -> Found(2, 2)
       [] Is(<<254, 255>>) -> Found(3, 2)
       [] given > 0 /\ bytes[1] = 239 /\ given >= 3 /\ ~Is(<<239, 187, 191>>) -> Found(1, 0)
       [] given >= 2 /\ bytes[1] \in {254, 255} /\ ~Is(<<255, 254>>) /\ ~Is(<<254, 255>>) -> Ends("bad mark")
       [] OTHER -> over /\ Ends("broken")

(* One character, if what has arrived is enough to tell *)
Next1 == IF enc = 1 THEN DecodeFrom(SubSeq(bytes, 1, given), used + 1, 1, [NONE EXCEPT !.k = "MORE"])
         ELSE DecodeFrom(SubSeq(bytes, 1, given), used + 1, enc, [NONE EXCEPT !.k = "MORE"])
Octets(c) == IF enc = 1 THEN ULen(c) ELSE 2 * Len(EncodeUnits(c))
Take == /\ enc # 0 /\ fin = "" /\ Next1.ch # <<>>
        /\ ch' = Append(ch, Next1.ch[1]) /\ used' = used + Octets(Next1.ch[1])
        /\ UNCHANGED <<bytes, given, over, enc, fin>>
Stop == /\ enc # 0 /\ fin = "" /\ Next1.ch = <<>>
        /\ IF Next1.fin.k = "MORE" THEN over /\ Ends(IF used = given THEN "end" ELSE "broken") ELSE Ends("bad")

Next == Receive \/ SourceEnds \/ Detect \/ Take \/ Stop
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
Whole == Decode(bytes, 0, NONE)
(* At any time: a beginning of what it is going to be *)
Beginning == IsPrefix(ch, Whole.ch) /\ (enc # 0 => enc = Whole.enc)
(* In the end: exactly that *)
InTheEnd ==
  fin # "" =>
    /\ ch = Whole.ch
    /\ CASE fin = "end" -> Whole.fin = NONE
         [] fin = "broken" -> Whole.fin = EOFERR
         [] OTHER -> Whole.fin.x[1] = "Reader"
(* Errors do not depend on what comes after them, and name a byte that is there *)
ErrorThere == Whole.fin # NONE /\ Whole.fin.x[1] = "Reader" => Whole.fin.n[1] < Len(bytes)
(* What is decoded are the bytes that were there *)
Exact == fin = "end" /\ enc = 1 => Utf8Bytes(ch) = SubSeq(bytes, Len(bytes) - Len(Utf8Bytes(ch)) + 1, Len(bytes))
                                   /\ Len(bytes) - Len(Utf8Bytes(ch)) \in {0, 3}
Exact16 == fin = "end" /\ enc \in {2, 3} => Utf16Bytes(ch, enc = 3) = SubSeq(bytes, 3, Len(bytes))
Fit == \A i \in 1..Len(ch) : Allowed(ch[i]) /\ IsScalarValue(ch[i])
Stuck == fin = "" => ENABLED Next
=============================================================================
