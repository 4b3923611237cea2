-------------------------------- MODULE Host --------------------------------
(***************************************************************************)
(* The program around the tool library.  It has affairs of its own: text in      *)
(* the buffer of its output, something to do when it ends, a child, reactions to    *)
(* signals.  Starting a licensing executable copies the program twice: the first       *)
(* copy makes the second and leaves, the library waits for it; the second becomes        *)
(* the executable, or leaves if it cannot.                                              *)
(*   Mistake = "exits"     copies leave as the program would: the buffer is written         *)
(*                         once more, and what is to be done at the end is done             *)
(*             "collects"  the library waits for any child                                  *)
(*             "handles"   the library ignores SIGPIPE whatever the program had set up          *)
(*             "stays"     a copy that cannot become the executable goes on as the program       *)
(***************************************************************************)
EXTENDS Naturals
CONSTANTS Texts, Starts, Mistake
VARIABLES printed, buf, out,     \* number of texts written by the program, in the buffer, arrived
          ran,                   \* how often the things to do at the end were done
          kid, by,               \* the program's child; who has collected it
          pipe,                  \* reaction to SIGPIPE: default, ignored, own
          first, second,         \* copies: [k: none/there/gone, buf]
          pc, left               \* of the program: runs, waits (in a start), over; starts to come
vars == <<printed, buf, out, ran, kid, by, pipe, first, second, pc, left>>
None == [k |-> "none", buf |-> 0]
Init == /\ printed = 0 /\ buf = 0 /\ out = 0 /\ ran = 0 /\ kid = "none" /\ by = "nobody"
        /\ pipe \in {"default", "ignored", "own"} /\ first = None /\ second = None /\ pc = "runs" /\ left = Starts
Print == pc = "runs" /\ printed < Texts /\ printed' = printed + 1 /\ buf' = buf + 1 /\ UNCHANGED <<out, ran, kid, by, pipe, first, second, pc, left>>
Flush == pc = "runs" /\ buf > 0 /\ out' = out + buf /\ buf' = 0 /\ UNCHANGED <<printed, ran, kid, by, pipe, first, second, pc, left>>
Bear == pc = "runs" /\ kid = "none" /\ kid' = "there" /\ UNCHANGED <<printed, buf, out, ran, by, pipe, first, second, pc, left>>
KidEnds == kid = "there" /\ kid' = "ended" /\ UNCHANGED <<printed, buf, out, ran, by, pipe, first, second, pc, left>>
Collect == pc = "runs" /\ kid = "ended" /\ kid' = "collected" /\ by' = "program" /\ UNCHANGED <<printed, buf, out, ran, pipe, first, second, pc, left>>
Start == /\ pc = "runs" /\ left > 0 /\ left' = left - 1 /\ pc' = "waits"
         /\ pipe' = (IF pipe = "default" \/ Mistake = "handles" THEN "ignored" ELSE pipe)
         /\ first' = [k |-> "there", buf |-> buf] /\ second' = (IF second.k = "there" THEN second ELSE None)
         /\ UNCHANGED <<printed, buf, out, ran, kid, by>>
Leave(c) == IF Mistake = "exits" THEN out' = out + c.buf /\ ran' = ran + 1 ELSE UNCHANGED <<out, ran>>
FirstLeaves == /\ first.k = "there" /\ first' = [k |-> "gone", buf |-> 0] /\ second' = [k |-> "there", buf |-> first.buf]
               /\ Leave(first) /\ UNCHANGED <<printed, buf, kid, by, pipe, pc, left>>
Becomes == second.k = "there" /\ second' = None /\ UNCHANGED <<printed, buf, out, ran, kid, by, pipe, first, pc, left>>
Cannot == /\ second.k = "there" /\ second' = None
          /\ IF Mistake = "stays" THEN out' = out + second.buf /\ ran' = ran + 1 ELSE Leave(second)
          /\ UNCHANGED <<printed, buf, kid, by, pipe, first, pc, left>>
Returns == /\ pc = "waits" /\ first.k = "gone" /\ pc' = "runs" /\ first' = None
           /\ UNCHANGED <<printed, buf, out, ran, kid, by, pipe, second, left>>
Wrong == /\ Mistake = "collects" /\ pc = "waits" /\ kid = "ended" /\ kid' = "collected" /\ by' = "library" /\ pc' = "runs"
         /\ UNCHANGED <<printed, buf, out, ran, pipe, first, second, left>>
Ends == /\ pc = "runs" /\ pc' = "over" /\ out' = out + buf /\ buf' = 0 /\ ran' = ran + 1
        /\ UNCHANGED <<printed, kid, by, pipe, first, second, left>>
Next == Print \/ Flush \/ Bear \/ KidEnds \/ Collect \/ Start \/ FirstLeaves \/ Becomes \/ Cannot \/ Returns \/ Wrong \/ Ends
Spec == Init /\ [][Next]_vars
(* every text arrives once, and nothing is done at the end but by the program *)
Once == out + buf = printed /\ ran = (IF pc = "over" THEN 1 ELSE 0)
(* the child is the program's *)
Ours == by # "library"
(* what the program had set up stays *)
Kept == [][pipe' # pipe => pipe = "default"]_vars
=============================================================================
