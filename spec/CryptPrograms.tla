--------------------------- MODULE CryptPrograms ---------------------------
(***************************************************************************)
(* The stand-alone programs encrypt_file and decrypt_file working on a tree   *)
(* of files.                                                                 *)
(*                                                                          *)
(* A file is an entry of Library with one more field, raw, that identifies its  *)
(* bytes.  An encryption reads any file and writes an encrypted one:            *)
(*   encrypt_file SRC REL BASE   for the place REL in the library BASE           *)
(*   encrypt_file SRC OUT        for the top of a library without package file    *)
(* A decryption decrypt_file BASE REL OUT reads the file at REL in BASE.          *)
(* EncIn, EncAlone and DecOuts are the sets of [ok, out] they may end in, out      *)
(* being the entry written, without raw; ok = FALSE leaves the output untouched or *)
(* absent.  The field by of an entry names the build of the programs (and so the   *)
(* hidden key) it was encrypted with; to another build it is damaged.              *)
(***************************************************************************)
EXTENDS Library

(* the tree below directory b as build w sees it, with paths relative to b *)
As(e, w) == [e EXCEPT !.ok = @ /\ (e.k = "enc" => e.by = w)]
View(fs, b, w) == LET n == Len(b) IN
  [p \in {SubSeq(q, n + 1, Len(q)) : q \in {q \in DOMAIN fs : Len(q) > n /\ SubSeq(q, 1, n) = b}} |-> As(fs[b \o p], w)]

IsDir(fs, d) == d = <<>> \/ EntryAt(fs, d).k = "dir"
IsFile(fs, p) == EntryAt(fs, p).k \in {"plain", "enc"}

(* the key a file at rel in the library b is encrypted with *)
PlaceKey(fs, b, rel, w) == KeyOf(View(fs, b, w), rel)

Entry(v, key, mask, home, w) == [k |-> "enc", v |-> v, key |-> key, mask |-> mask, ok |-> TRUE, home |-> home, by |-> w]
Plain(v) == [k |-> "plain", v |-> v, key |-> "", mask |-> "", ok |-> TRUE, home |-> <<>>, by |-> ""]

Failed == [ok |-> FALSE, out |-> NoEntry]
Encrypted(fs, src, key, home, fresh, w) ==
  IF key = "broken" THEN {Failed}
  ELSE {[ok |-> TRUE, out |-> Entry(fs[src].raw, key, IF LastOf(home) = PKG THEN fresh ELSE "", home, w)]}

(* with base directory *)
EncIn(fs, src, b, rel, fresh, w) ==
  IF ~IsFile(fs, src) \/ ~IsDir(fs, b \o Front(rel)) \/ EntryAt(fs, b \o rel).k = "dir" THEN {Failed}
  ELSE Encrypted(fs, src, PlaceKey(fs, b, rel, w), rel, fresh, w)
(* without *)
EncAlone(fs, src, out, fresh, w) ==
  IF ~IsFile(fs, src) \/ ~IsDir(fs, Front(out)) \/ EntryAt(fs, out).k = "dir" THEN {Failed}
  ELSE Encrypted(fs, src, "base", <<LastOf(out)>>, fresh, w)

DecOuts(fs, b, rel, out, w) ==
  IF ~IsFile(fs, b \o rel) \/ ~IsDir(fs, Front(out)) \/ EntryAt(fs, out).k = "dir" THEN {Failed}
  ELSE LET e == As(fs[b \o rel], w) IN
       IF e.k # "enc" \/ ~e.ok \/ e.key # PlaceKey(fs, b, rel, w) THEN {Failed}
       ELSE IF (LastOf(e.home) = PKG) # (LastOf(rel) = PKG)
            THEN {Failed, [ok |-> TRUE, out |-> Plain("*")]}     \* a package file in the place of another file or the reverse
            ELSE {[ok |-> TRUE, out |-> Plain(e.v)]}
=============================================================================
