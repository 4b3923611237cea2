------------------------------ MODULE Grammar ------------------------------
(***************************************************************************)
(* The message grammar of the protocol (spec/protocol.tex in the           *)
(* repository): one line "WORD", "WORD number", "WORD length" or           *)
(* "WORD number length", the latter two followed by exactly length bytes.   *)
(*                                                                          *)
(* A received message m is described by                                    *)
(*   w     first word of the line ("" when there is none)                   *)
(*   a     remaining words, each [t, v]: t = "i" a plain integer v,          *)
(*         "l" something that starts like an integer v (12abc, +7, 007),     *)
(*         "h" an integer outside of -2^31..2^31-1 (v = its sign), "x" other *)
(*   dl    number of bytes after the line                                   *)
(*   canon the line is exactly the words separated by single spaces and      *)
(*         ended by a newline                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences

Simple == {"NOTSIMPLE", "TOOLS", "YES"}
Number == {"VERSION"}
Length == {"FEATURE", "FILE", "FILECONT", "LIB", "LICENSE", "NO", "RETURNFEATURE",
           "RETURNLICENSE", "TOOLLIST"}
NumberLength == {"ERROR"}
Words == Simple \cup Number \cup Length \cup NumberLength
NumArgs(w) == IF w \in Simple THEN 0 ELSE IF w \in NumberLength THEN 2 ELSE 1

Bad == [good |-> FALSE, c |-> "", n |-> 0]
Good(c, n) == [good |-> TRUE, c |-> c, n |-> n]

(* the readings an argument allows; 2000000000 stands for "huge" *)
NumReadings(a) == CASE a.t = "i" -> {a.v}
                    [] a.t = "l" -> {a.v}
                    [] a.t = "h" -> {a.v * 2000000000, 0}
                    [] OTHER -> {}
Sloppy(a) == a.t \in {"l", "h"}
FitsLength(a, dl) == a.t \in {"i", "l"} /\ a.v >= 0 /\ a.v = dl

(* The set of ways in which the message may be taken: Bad (not understood) or
   a command.  Strict for canonical messages; where the grammar document does
   not say how tolerant a reader has to be, both are allowed. *)
Parse(m) ==
  IF m.w \notin Words \/ Len(m.a) # NumArgs(m.w) THEN {Bad}
  ELSE IF \E i \in 1..Len(m.a) : m.a[i].t = "x" THEN {Bad}
  ELSE IF m.w \in Simple
       THEN {Good(m.w, 0)} \cup (IF m.canon /\ m.dl = 0 THEN {} ELSE {Bad})
  ELSE IF m.w \in Number
       THEN {Good(m.w, n) : n \in NumReadings(m.a[1])}
            \cup (IF m.canon /\ m.dl = 0 /\ ~Sloppy(m.a[1]) THEN {} ELSE {Bad})
  ELSE IF ~FitsLength(m.a[Len(m.a)], m.dl) THEN {Bad}
  ELSE {Good(m.w, 0)} \cup (IF m.canon /\ ~(\E i \in 1..Len(m.a) : Sloppy(m.a[i])) THEN {} ELSE {Bad})
=============================================================================
