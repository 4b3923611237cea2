------------------------------ MODULE Packaged ------------------------------
(***************************************************************************)
(* A container of Packaging as the library that LveSession serves once it is   *)
(* unpacked: which key and key mask each encrypted file got.  same is FALSE      *)
(* for an executable that was built with other keys; man names the bytes of the   *)
(* manifest.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Pk == INSTANCE Packaging
But(p) == SubSeq(p, 1, Len(p) - 1)
RECURSIVE Joined(_)
Joined(p) == IF p = <<>> THEN "" ELSE p[1] \o (IF Len(p) = 1 THEN "" ELSE "/" \o Joined(Tail(p)))
MaskName(d) == "m:" \o Joined(d)
Unpacked(w, same, man) ==
  LET c == Pk!Container(w)
      pkgs == {But(p) : p \in {p \in DOMAIN c : c[p].k = "enc" /\ Pk!Last(p) = "package.moc"}}
      near(d) == LET up == {n \in 0..Len(d) : SubSeq(d, 1, n) \in pkgs} IN
                 IF up = {} THEN "base" ELSE MaskName(SubSeq(d, 1, CHOOSE n \in up : \A k \in up : k <= n))
      key(p) == IF Pk!Last(p) = "package.moc" THEN (IF Len(p) = 1 THEN "base" ELSE near(But(But(p)))) ELSE near(But(p))
      dirs == {d \in UNION {{SubSeq(p, 1, n) : n \in 1..(Len(p) - 1)} : p \in DOMAIN c} : TRUE}
  IN [p \in DOMAIN c \cup dirs |->
        IF p \notin DOMAIN c THEN [k |-> "dir", v |-> "", key |-> "", mask |-> "", ok |-> FALSE, home |-> <<>>]
        ELSE CASE c[p].k = "manifest" -> [k |-> "plain", v |-> man, key |-> "", mask |-> "", ok |-> TRUE, home |-> p]
               [] c[p].k = "plain" -> [k |-> "plain", v |-> c[p].c, key |-> "", mask |-> "", ok |-> TRUE, home |-> p]
               [] OTHER -> [k |-> "enc", v |-> c[p].c, key |-> key(p), mask |-> IF Pk!Last(p) = "package.moc" THEN MaskName(But(p)) ELSE "",
                            ok |-> same, home |-> p]]
=============================================================================
