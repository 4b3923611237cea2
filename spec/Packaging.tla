----------------------------- MODULE Packaging -----------------------------
(***************************************************************************)
(* packagetool: from a command line and the files around it to a container.   *)
(*                                                                          *)
(* A world w is what one run finds:                                          *)
(*   args     the command line                                              *)
(*   dirs     the arguments that name directories                            *)
(*   exist    the arguments that name something that exists                  *)
(*   lib      the last component of the library path ("" if it has none, as     *)
(*            in "." or "/")                                                  *)
(*   src      the source tree, path -> file (directories are not listed)         *)
(*   lves     the licensing executables next to the tool, name -> file           *)
(*   extra    what ".library" next to the tool is: "none", "dir" or "file"       *)
(*   more     the files in it, path -> file                                  *)
(*   block    ".library" next to the tool holds something that keeps             *)
(*            manifest.xml from being written                                *)
(*   icon     the file name part of the icon argument                        *)
(*   limit    files cannot grow beyond this size (-1: no limit)                *)
(*   zipfail  the zip library reports a failure                              *)
(*   mute     a tool or dependency file exists but cannot be read               *)
(*   text     number of characters that go into the manifest at least          *)
(* A file is [c, size, read, mo]: an identity of its bytes, their number, if it   *)
(* can be read, and if it is a Modelica file by its name.  A path is a sequence   *)
(* of names.                                                                *)
(*                                                                          *)
(* The run is a sequence of stages; each does its part or ends the run with its   *)
(* own status.  The container exists only at the end of the last.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Last(p) == p[Len(p)]
Known == [o \in {"-librarypath", "-enabled", "-title", "-description", "-version", "-build", "-date", "-language",
                 "-copyright", "-license", "-encrypt", "-icon", "-tools", "-dependencies"} |-> TRUE]
Mandatory == {"-librarypath", "-version", "-language"}
Help == {"-h", "--help"}
Yes == {"true", "TRUE", "True", "tRuE"}
LveNames == {"lve_win32.exe", "lve_win64.exe", "lve_linux32", "lve_linux64", "lve_darwin64"}
Platform == [n \in LveNames |-> CASE n = "lve_win32.exe" -> "win32" [] n = "lve_win64.exe" -> "win64"
                                  [] n = "lve_linux32" -> "linux32" [] n = "lve_linux64" -> "linux64" [] OTHER -> "darwin64"]
DotLib == ".library"

Range(f) == {f[i] : i \in DOMAIN f}
(* options of a command line: a function, or "bad" *)
RECURSIVE Options(_, _, _)
Options(a, i, o) ==
  IF i > Len(a) THEN [ok |-> TRUE, o |-> o]
  ELSE IF a[i] \notin DOMAIN Known \/ a[i] \in DOMAIN o \/ i = Len(a) THEN [ok |-> FALSE, o |-> o]
  ELSE IF a[i + 1] = "" THEN [ok |-> FALSE, o |-> o]
  ELSE Options(a, i + 2, [k \in DOMAIN o \cup {a[i]} |-> IF k = a[i] THEN a[i + 1] ELSE o[k]])
Opts(w) == Options(w.args, 1, [k \in {} |-> ""])
Has(w, k) == k \in DOMAIN Opts(w).o
Val(w, k) == Opts(w).o[k]
Encrypting(w) == Has(w, "-encrypt") /\ Val(w, "-encrypt") \in Yes
Valid(w) == /\ Len(w.args) > 0 /\ Opts(w).ok
            /\ Mandatory \subseteq DOMAIN Opts(w).o
            /\ Val(w, "-librarypath") \in w.dirs
            /\ Encrypting(w) => DOMAIN w.lves # {}
            /\ \A k \in {"-tools", "-dependencies", "-icon"} : Has(w, k) => Val(w, k) \in w.exist

TooBig(w, n) == w.limit >= 0 /\ n > w.limit
Copyable(w, f) == f.read /\ ~TooBig(w, f.size)
(* a file and its place in the container, below the library's directory *)
Carried(w) == {p \in DOMAIN w.src : p[1] # DotLib}
Staged(w) ==     \* before the manifest is made
  LET lv == IF Encrypting(w) THEN {<<DotLib, n>> : n \in DOMAIN w.lves} ELSE {}
      ex == IF w.extra = "dir" THEN {<<DotLib>> \o p : p \in DOMAIN w.more} ELSE {}
  IN [p \in Carried(w) \cup lv \cup ex |->
        IF p \in ex THEN w.more[Tail(p)] ELSE IF p \in lv THEN w.lves[p[2]] ELSE w.src[p]]
Manifest == <<DotLib, "manifest.xml">>
Moc(p) == SubSeq(p, 1, Len(p) - 1) \o <<Last(p) \o "c">>
(* the container: path -> [k, c] *)
Container(w) ==
  LET st == Staged(w)
      at(p) == IF Encrypting(w) /\ st[p].mo THEN Moc(p) ELSE p
      files == {p \in DOMAIN st : p # Manifest}
  IN [q \in {at(p) : p \in files} \cup {Manifest} |->
        IF q = Manifest THEN [k |-> "manifest", c |-> ""]
        ELSE LET p == CHOOSE p \in files : at(p) = q IN
             [k |-> IF Encrypting(w) /\ st[p].mo THEN "enc" ELSE "plain", c |-> st[p].c]]
Icons(w) == {p \in Carried(w) : Last(p) = w.icon}

(* a run: [stage, exit, arch] with exit = -1 while it lasts; arch "asbefore",
   "none" or a container *)
NoArch == [k |-> "asbefore"]
Begin == [stage |-> "arguments", exit |-> -1, arch |-> NoArch]
End(s, n) == [s EXCEPT !.exit = n]
Go(s, t) == [s EXCEPT !.stage = t]
Step(w, s) ==
  CASE s.stage = "arguments" ->
         IF Range(w.args) \cap Help # {} THEN End(s, 0)
         ELSE IF ~Valid(w) THEN End(s, 1) ELSE Go(s, "copy")
    [] s.stage = "copy" -> IF w.lib = "" \/ \E p \in Carried(w) : ~Copyable(w, w.src[p]) THEN End(s, 2) ELSE Go(s, "dotlib")
    [] s.stage = "dotlib" -> Go(s, "icon")             \* only a failing operation can end this one
    [] s.stage = "icon" -> IF Has(w, "-icon") /\ Icons(w) = {} THEN End(s, 4) ELSE Go(s, "lves")
    [] s.stage = "lves" -> IF Encrypting(w) /\ \E n \in DOMAIN w.lves : ~Copyable(w, w.lves[n]) THEN End(s, 5) ELSE Go(s, "extra")
    [] s.stage = "extra" -> IF w.extra = "file" \/ (w.extra = "dir" /\ \E p \in DOMAIN w.more : ~Copyable(w, w.more[p])) THEN End(s, 6)
                            ELSE Go(s, "manifest")
    [] s.stage = "manifest" -> IF w.block \/ w.mute \/ TooBig(w, w.text) THEN End(s, 7) ELSE Go(s, "encrypt")
    [] s.stage = "encrypt" -> IF Encrypting(w) /\ \E p \in DOMAIN Staged(w) : Staged(w)[p].mo /\ TooBig(w, Staged(w)[p].size + 49) THEN End(s, 8)
                              ELSE Go(s, "zip")
    [] s.stage = "zip" -> IF w.zipfail THEN [End(s, 9) EXCEPT !.arch = [k |-> "none"]]
                          ELSE [End(s, 0) EXCEPT !.arch = [k |-> "new", e |-> Container(w)]]
(* one operation on files fails underneath a stage (no room, no rights, a broken
   drive): the stage ends the run with its status, or did without what failed *)
Status == [t \in {"copy", "dotlib", "icon", "lves", "extra", "manifest", "encrypt", "zip"} |->
             CASE t = "copy" -> 2 [] t = "dotlib" -> 3 [] t = "icon" -> 4 [] t = "lves" -> 5 [] t = "extra" -> 6
               [] t = "manifest" -> 7 [] t = "encrypt" -> 8 [] OTHER -> 9]
Break(s) == [End(s, Status[s.stage]) EXCEPT !.arch = IF s.stage = "zip" THEN [k |-> "none"] ELSE @]
RECURSIVE Run(_, _)
Run(w, s) == IF s.exit >= 0 THEN s ELSE Run(w, Step(w, s))
Final(w) == Run(w, Begin)

(* a failed operation as recorded: [op, side, p], side being where it was: the
   source, the staging copy of the library, the directory of that ("temp"), ... .
   "long" stands for a path longer than can be handled.
   The statuses the run may end with if it does not succeed all the same. *)
Writing == {"fopenw", "fwrite", "fclose", "mkdir"}
Prefix(p, x) == Len(p) <= Len(x) /\ SubSeq(x, 1, Len(p)) = p
Culprits(w, f) ==
  LET ex == IF w.extra = "dir" THEN {<<DotLib>> \o p : p \in DOMAIN w.more} ELSE {} IN
  IF f.op \in {"mkdtemp", "long"} THEN {"copy"}
  ELSE IF f.side # "staging" \/ f.op \notin Writing THEN DOMAIN Status
  ELSE IF f.p = <<>> THEN {"copy"}
  ELSE IF f.p = <<DotLib>> THEN {"dotlib"}
  ELSE IF f.p = Manifest THEN {"manifest"} \cup (IF f.p \in ex THEN {"extra"} ELSE {})
  ELSE IF Len(f.p) = 2 /\ f.p[1] = DotLib /\ f.p[2] \in DOMAIN w.lves THEN {"lves"} \cup (IF f.p \in ex THEN {"extra"} ELSE {})
  ELSE IF \E p \in ex : Prefix(f.p, p) THEN {"extra"}
  ELSE IF \E p \in Carried(w) : Prefix(f.p, p) THEN {"copy"}
  ELSE IF \E p \in DOMAIN Staged(w) : Staged(w)[p].mo /\ Moc(p) = f.p THEN {"encrypt"}
  ELSE DOMAIN Status
Statuses(w, f) == {Status[t] : t \in Culprits(w, f)} \cup (IF f.op = "stat" /\ f.side \in {"source", "tool", "given"} THEN {1} ELSE {})

(* a world from a recording *)
FileOf(x) == [c |-> x.c, size |-> x.size, read |-> x.read, mo |-> x.mo]
TreeOf(xs) == [p \in {x.p : x \in Range(xs)} |-> FileOf(CHOOSE x \in Range(xs) : x.p = p)]
WorldOf(e) == [args |-> e.args, dirs |-> Range(e.dirs), exist |-> Range(e.exist), lib |-> e.lib, src |-> TreeOf(e.src),
               lves |-> [n \in {x.p[1] : x \in Range(e.lves)} |-> FileOf(CHOOSE x \in Range(e.lves) : x.p[1] = n)],
               extra |-> e.extra, more |-> TreeOf(e.more), block |-> e.block, icon |-> e.icon, limit |-> e.limit, zipfail |-> e.zipfail, mute |-> e.mute, text |-> e.text]

(* the manifest: values by place *)
ValueFields == [k \in {"-enabled", "-title", "-description", "-version", "-build", "-date", "-language", "-copyright", "-license"} |->
  CASE k = "-enabled" -> "library@enabled" [] k = "-title" -> "title" [] k = "-description" -> "description"
    [] k = "-version" -> "version@number" [] k = "-build" -> "version@build" [] k = "-date" -> "version@date"
    [] k = "-language" -> "language@version" [] k = "-copyright" -> "copyright" [] OTHER -> "license"]
Fields(w) == {[k |-> "manifest@version", v |-> "1.0"], [k |-> "library@id", v |-> w.lib]}
             \cup {[k |-> ValueFields[k], v |-> Val(w, k)] : k \in DOMAIN ValueFields \cap DOMAIN Opts(w).o}
Executables(w) == IF Encrypting(w) THEN {[path |-> DotLib \o "/" \o n, platform |-> Platform[n], licensing |-> "true"] : n \in DOMAIN w.lves} ELSE {}
=============================================================================
