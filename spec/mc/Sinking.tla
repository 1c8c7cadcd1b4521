------------------------------ MODULE Sinking ------------------------------
(***************************************************************************)
(* Model of the way from the emitter's text to the sink: characters are    *)
(* collected in a buffer, encoded, and written by a sink that takes what   *)
(* it likes, interrupts, and may fail.                                     *)
(***************************************************************************)
EXTENDS Chars

CONSTANTS Length, Room   \* of the text; of the buffer, in characters

VARIABLES text,    \* characters written so far
          enc,
          buf,     \* those not encoded yet
          raw,     \* bytes still to be written by the current flush
          busy,    \* flushing?
          sink,    \* bytes that have arrived
          failed,  \* has the sink failed?
          told     \* results of flushes
vars == <<text, enc, buf, raw, busy, sink, failed, told>>

Letters == {97, 233, 8364, 128512}
Bytes(s) == IF enc = 1 THEN Utf8Bytes(s) ELSE Utf16Bytes(s, enc = 3)

Init == /\ text = <<>> /\ buf = <<>> /\ raw = <<>> /\ sink = <<>> /\ busy = FALSE /\ failed = FALSE /\ told = "none"
        /\ enc \in {1, 2, 3}

Write(x) == /\ ~busy /\ ~failed /\ Len(text) < Length /\ Len(buf) < Room
            /\ text' = Append(text, x) /\ buf' = Append(buf, x) /\ told' = "none"
            /\ UNCHANGED <<enc, raw, busy, sink, failed>>
Flush == /\ ~busy /\ ~failed
         /\ busy' = TRUE /\ raw' = Bytes(buf) /\ told' = "none" /\ UNCHANGED <<text, enc, buf, sink, failed>>
Accept == /\ busy /\ raw # <<>>
          /\ \E n \in 1..Len(raw) : sink' = sink \o SubSeq(raw, 1, n) /\ raw' = SubSeq(raw, n + 1, Len(raw))
          /\ UNCHANGED <<text, enc, buf, busy, failed, told>>
Interrupt == busy /\ raw # <<>> /\ UNCHANGED vars
Fails == /\ busy /\ raw # <<>> /\ failed' = TRUE /\ busy' = FALSE /\ told' = "error"
         /\ UNCHANGED <<text, enc, buf, raw, sink>>
Flushed == /\ busy /\ raw = <<>> /\ busy' = FALSE /\ buf' = <<>> /\ told' = "ok"
           /\ UNCHANGED <<text, enc, raw, sink, failed>>
Next == (\E x \in Letters : Write(x)) \/ Flush \/ Accept \/ Interrupt \/ Fails \/ Flushed
Spec == Init /\ [][Next]_vars

InOrder == IsPrefix(sink, Bytes(text))
Complete == told = "ok" => sink = Bytes(text)
NothingLost == ~failed => sink \o (IF busy THEN raw ELSE Bytes(buf)) = Bytes(text)
Told == failed => told = "error"
Whole == [](told = "ok" => Len(buf) = 0)
=============================================================================
