----------------------------- MODULE RoundTrip -----------------------------
(***************************************************************************)
(* What emitting and then parsing must preserve: is the event w, as read,  *)
(* the event v that was emitted with settings g (as given)?                *)
(***************************************************************************)
EXTENDS Chars

Bang == <<33>>
Written(g, v) == v.s[2] # <<>> /\ (g.can = 1 \/ (v.n[1] = 0 /\ (v.k = "SCALAR" => v.n[2] = 0)))

SameScalar(g, v, w) ==
  /\ w.s[1] = v.s[1] /\ w.s[3] = v.s[3]
  /\ IF Written(g, v)
     THEN w.s[2] = v.s[2] /\ w.n[2] = 0 /\ (w.n[1] = 1 => v.s[2][1] = Bang)
     \* read as a scalar whose tag is implicit, and that is what the event said;
     \* a quoted scalar that is implicit only if plain is tagged "!"
     ELSE /\ w.s[2] = <<>> \/ (w.s[2] = <<Bang>> /\ w.n[3] # 1 /\ v.n[2] = 0)
          /\ w.n[1] + w.n[2] = 1
          /\ w.n[1] = 1 => v.n[1] = 1
          /\ w.n[2] = 1 => v.n[2] = 1

SameCollection(g, v, w) ==
  /\ w.s[1] = v.s[1]
  /\ IF Written(g, v) THEN w.s[2] = v.s[2] /\ w.n[1] = 0 ELSE w.s[2] = <<>> /\ w.n[1] = 1

(* empty: the whole text is empty, and has no encoding *)
Equivalent(g, v, w, empty) ==
  /\ w.k = v.k
  /\ CASE v.k = "SS" -> w.n[1] = (IF g.enc # 0 THEN g.enc ELSE IF v.n[1] # 0 THEN v.n[1] ELSE 1)
       \/ (empty /\ w.n[1] = 0)
       [] v.k = "DOC" -> w.s = v.s /\ w.n[2] = v.n[2] /\ (v.n[2] = 1 => w.n[3] = v.n[3] /\ w.n[4] = v.n[4])
       [] v.k = "ALIAS" -> w.s = v.s
       [] v.k = "SCALAR" -> SameScalar(g, v, w)
       [] v.k \in {"SEQ", "MAP"} -> SameCollection(g, v, w)
       [] OTHER -> TRUE
=============================================================================
