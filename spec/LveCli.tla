------------------------------- MODULE LveCli -------------------------------
(***************************************************************************)
(* The licensing executable started from the command line.                  *)
(*                                                                          *)
(* Runs(x, args) is the set of [exit, lm] a start with the given arguments     *)
(* may end in: exit status ("ok", "fail"; "any" for a session, whose peer       *)
(* decides) and the calls made to the license manager.                        *)
(* x: dirs    the paths that name an existing directory                      *)
(*    trim    path -> the path without trailing separators                    *)
(*    grant   features the manager grants                                     *)
(*    newfail the manager cannot be set up                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences

CF == "--checkout-feature"
LP == "--libpath"
VER == "--version"
HELP == "--help"

Unset == [set |-> FALSE, v |-> ""]
Set(v) == [set |-> TRUE, v |-> v]
Kind(k) == [k |-> k, f |-> "", p |-> ""]

(* Arguments are read from left to right; the value of an option is the argument
   after it, whatever it looks like. *)
RECURSIVE Read(_, _, _, _)
Read(args, i, f, p) ==
  IF i > Len(args)
  THEN IF f.set THEN (IF p.set THEN [k |-> "checkout", f |-> f.v, p |-> p.v] ELSE Kind("refuse"))
       ELSE Kind("session")
  ELSE CASE args[i] = CF -> IF f.set \/ i = Len(args) THEN Kind("refuse") ELSE Read(args, i + 2, Set(args[i + 1]), p)
         [] args[i] = LP -> IF p.set \/ i = Len(args) THEN Kind("refuse") ELSE Read(args, i + 2, f, Set(args[i + 1]))
         [] args[i] = VER -> IF Len(args) = 1 THEN Kind("version") ELSE Kind("refuse")
         [] args[i] = HELP -> IF Len(args) = 1 THEN Kind("help") ELSE Kind("refuse")
         [] OTHER -> Kind("refuse")

Order(args) == Read(args, 1, Unset, Unset)

C(op, arg) == [op |-> op, arg |-> arg]
(* the manager may or may not be shut down before the process ends *)
Closing(lms) == lms \cup {Append(lm, C("free", "")) : lm \in lms}

Checkout(x, f, p) ==
  IF p \notin x.dirs
  THEN {[exit |-> "fail", lm |-> lm] : lm \in {<<>>} \cup Closing({<<C("new", r)>> : r \in {p, x.trim[p]}})}
  ELSE IF x.newfail THEN {[exit |-> "fail", lm |-> <<C("newfail", r)>>] : r \in {p, x.trim[p]}}
  ELSE {[exit |-> IF f \in x.grant THEN "ok" ELSE "fail", lm |-> lm]
        : lm \in Closing({<<C("new", r), C("out", f)>> : r \in {p, x.trim[p]}})}

Runs(x, args) ==
  LET o == Order(args) IN
  CASE o.k \in {"version", "help"} -> {[exit |-> "ok", lm |-> <<>>]}
    [] o.k = "refuse" -> {[exit |-> "fail", lm |-> <<>>]}
    [] o.k = "session" -> {[exit |-> "any", lm |-> <<>>]}
    [] OTHER -> Checkout(x, o.f, o.p)
=============================================================================
