------------------------------ MODULE Library ------------------------------
(***************************************************************************)
(* A Modelica library on disk as the licensing executable sees it: a tree  *)
(* of entries, some of them encrypted.  Encryption is abstracted to what    *)
(* authenticated encryption promises: an encrypted entry remembers the key  *)
(* it was made with, its content, the key mask it carries when it is a       *)
(* package file, the place it was made for, and whether it is unmodified.    *)
(*                                                                          *)
(* A path is a sequence of component names.  The directory <<>> is the      *)
(* library directory itself.  Keys are named by the mask that makes them;    *)
(* "base" is the unmasked key of the executable.                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

PKG == "package.moc"

Front(p) == SubSeq(p, 1, Len(p) - 1)
LastOf(p) == p[Len(p)]

NoEntry == [k |-> "none", v |-> "", key |-> "", mask |-> "", ok |-> FALSE, home |-> <<>>]
EntryAt(fs, p) == IF p \in DOMAIN fs THEN fs[p] ELSE NoEntry
Pkg(d) == Append(d, PKG)

(* The mask that applies to the files of directory d: the one in the nearest
   package file at or above d; "base" when there is none, "broken" when that
   package file does not decrypt. *)
RECURSIVE MaskAt(_, _)
MaskAt(fs, d) ==
  LET b == EntryAt(fs, Pkg(d))
      above == IF d = <<>> THEN "base" ELSE MaskAt(fs, Front(d))
  IN IF b.k = "none" THEN above
     ELSE IF b.k = "enc" /\ b.ok /\ b.key = above THEN b.mask ELSE "broken"

(* The key with which the file at p has to be encrypted.  A package file is
   encrypted with the mask of the directory above its own. *)
KeyOf(fs, p) ==
  IF LastOf(p) = PKG
  THEN IF Len(p) = 1 THEN "base" ELSE MaskAt(fs, Front(Front(p)))
  ELSE MaskAt(fs, Front(p))

(* A package file above p that decrypts but is not the one the library was
   made with: what it governs is unspecified from then on. *)
ForeignAbove(fs0, fs, p) ==
  \E n \in 0..(Len(p) - 1) :
    LET q == Pkg(SubSeq(p, 1, n)) b == EntryAt(fs, q) IN
    /\ b # EntryAt(fs0, q)
    /\ b.k = "enc" /\ b.ok /\ b.key = KeyOf(fs, q)

Cont(v) == [c |-> "FILECONT", n |-> 0, d |-> v]
Err(n) == [c |-> "ERROR", n |-> n, d |-> "*"]

(* What a tool entitled to the library may be answered for the file at p,
   fs0 being the library as it was made and fs as it is now. *)
FileReplies(fs0, fs, p, soiled) ==
  IF p = <<>> THEN {Err(6), Err(4)} ELSE
  LET b == EntryAt(fs, p) IN
  CASE b.k \in {"none", "dir"} -> {Err(6)}
    [] b.k = "plain" -> {Cont(b.v)}
    [] b.k = "enc" ->
         LET want == KeyOf(fs0, p)
             now == KeyOf(fs, p)
             clean == now = want /\ ~soiled
         IN IF ~b.ok THEN {Err(8)}
            ELSE IF b.key = want /\ clean /\ b.home = p THEN {Cont(b.v)}
            ELSE IF b.key = want \/ b.key = now \/ soiled
                 THEN \* made with the key that applies here, for another place or under
                      \* a package file that is not the original one: not specified.  A
                      \* package file carries its mask behind the text, which another
                      \* file does not have.
                      {IF (LastOf(b.home) = PKG) = (LastOf(p) = PKG) THEN Cont(b.v) ELSE Cont("*"), Err(8)}
            ELSE {Err(8)}
=============================================================================
