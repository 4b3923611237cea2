----------------------------- MODULE Disclosure -----------------------------
(***************************************************************************)
(* What somebody who has no tool key can learn from everything the programs *)
(* leave behind: the encrypted library, the container, the log file of the   *)
(* executable, and what the programs write on their error output.            *)
(*                                                                          *)
(* A term is one of                                                          *)
(*   <<"base">>        the key built into the executable                     *)
(*   <<"mask", d>>     the key mask of directory d                           *)
(*   <<"key", d>>      the key of the files in d: base and mask together      *)
(*   <<"text", f>>     the text of model file f                              *)
(*   <<"private">>     a private key                                         *)
(*   <<"name", f>>     the name of a file                                    *)
(*   <<"box", k, t>>   the terms in t encrypted with key k                    *)
(* The key of a directory is the exclusive or of base key and mask, so any    *)
(* two of base, mask, key give the third.                                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Base == <<"base">>
Private == <<"private">>
Mask(d) == <<"mask", d>>
Key(d) == <<"key", d>>
Text(f) == <<"text", f>>
Name(f) == <<"name", f>>
Box(k, t) == <<"box", k, t>>

(* one round of what follows from the terms in s *)
Step(s) ==
  s \cup UNION {b[3] : b \in {x \in s : x[1] = "box" /\ x[2] \in s}}
    \cup {Base : x \in {x \in s : x[1] = "mask" /\ Key(x[2]) \in s}}
    \cup (IF Base \notin s THEN {}
          ELSE {Key(x[2]) : x \in {x \in s : x[1] = "mask"}} \cup {Mask(x[2]) : x \in {x \in s : x[1] = "key"}})
RECURSIVE Closure(_)
Closure(s) == LET n == Step(s) IN IF n = s THEN s ELSE Closure(n)

Secret(x) == x[1] \in {"base", "mask", "key", "text", "private"}
Reveals(s) == {x \in Closure(s) : Secret(x)}

(* a library: files is a set of [f, d, pkg], d the directory whose key the file
   is encrypted with ("" the base key), pkg the directory whose mask it carries
   or "" *)
KeyFor(d) == IF d = "" THEN Base ELSE Key(d)
Encrypted(file) ==
  Box(KeyFor(file.d), {Text(file.f)} \cup (IF file.pkg = "" THEN {} ELSE {Mask(file.pkg)}))

(* what a program may write when it has worked on a file, whether or not the
   work succeeded: names, nothing else *)
Says(file) == {Name(file.f)}
(* what a build for finding faults writes: also the keys it used *)
SaysAll(file) == Says(file) \cup {KeyFor(file.d)} \cup (IF file.pkg = "" THEN {} ELSE {Mask(file.pkg)})
=============================================================================
