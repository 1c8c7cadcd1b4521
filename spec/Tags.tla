-------------------------------- MODULE Tags --------------------------------
(* The tags that nodes have by default *)
EXTENDS Chars

TagPrefix == <<116, 97, 103, 58, 121, 97, 109, 108, 46, 111, 114, 103, 44, 50, 48, 48, 50, 58>>
StrTag == TagPrefix \o <<115, 116, 114>>
SeqTag == TagPrefix \o <<115, 101, 113>>
MapTag == TagPrefix \o <<109, 97, 112>>

DefaultOf(kind) == CASE kind = "NS" -> StrTag [] kind = "NQ" -> SeqTag [] OTHER -> MapTag
=============================================================================
