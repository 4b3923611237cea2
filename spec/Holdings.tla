------------------------------ MODULE Holdings ------------------------------
(***************************************************************************)
(* What a program and its licensing executables hold: ends of pipes, and dead  *)
(* processes nobody has collected.  A program opens and closes sessions any      *)
(* number of times, some starts fail, executables get stuck or die, and the       *)
(* program itself may disappear at any time.                                    *)
(*                                                                          *)
(* What is held depends on the sessions that are open now, not on how many there  *)
(* have been (Exact); and an executable holds only the ends of its own session,    *)
(* so that each notices the end of the program by itself (Notices), whatever the   *)
(* others do.                                                                *)
(*   LeaksOnFailure  a failed start leaves its pipes open                        *)
(*   Inherits        an executable is started with the ends of other sessions     *)
(*   Uncollected     ended executables are not collected                          *)
(* are the three ways in which this went wrong; each of them is refuted.            *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANTS Sessions, LeaksOnFailure, Inherits, Uncollected
Tool == 0
Ends(k) == {<<k, "req", "r">>, <<k, "req", "w">>, <<k, "ans", "r">>, <<k, "ans", "w">>}
ToolEnds(k) == {<<k, "req", "w">>, <<k, "ans", "r">>}
ExeEnds(k) == {<<k, "req", "r">>, <<k, "ans", "w">>}

VARIABLES alive, open, exe, held, dead
vars == <<alive, open, exe, held, dead>>
Init == /\ alive = TRUE /\ open = {} /\ exe = [k \in Sessions |-> "none"]
        /\ held = [p \in {Tool} \cup Sessions |-> {}] /\ dead = {}

Start(k) == /\ alive /\ k \notin open /\ exe[k] = "none"
            /\ open' = open \cup {k} /\ exe' = [exe EXCEPT ![k] = "running"]
            /\ held' = [held EXCEPT ![Tool] = @ \cup ToolEnds(k),
                                    ![k] = ExeEnds(k) \cup (IF Inherits THEN held[Tool] \ ToolEnds(k) ELSE {})]
            /\ UNCHANGED <<alive, dead>>
(* no such program, no rights to run it, not a licensing executable, or no free
   descriptors *)
StartFails(k) == /\ alive /\ k \notin open /\ exe[k] = "none"
                 /\ held' = [held EXCEPT ![Tool] = IF LeaksOnFailure THEN @ \cup ToolEnds(k) ELSE @]
                 /\ UNCHANGED <<alive, open, exe, dead>>
(* calls, whatever their outcome, hold nothing *)
Call(k) == alive /\ k \in open /\ UNCHANGED vars
Free(k) == /\ alive /\ k \in open /\ open' = open \ {k}
           /\ held' = [held EXCEPT ![Tool] = @ \ ToolEnds(k)]
           /\ UNCHANGED <<alive, exe, dead>>
Gone(k) == /\ exe' = [exe EXCEPT ![k] = "none"]
           /\ held' = [held EXCEPT ![k] = {}]
           /\ dead' = IF Uncollected /\ alive THEN dead \cup {k} ELSE dead
           /\ UNCHANGED <<alive, open>>
(* end of file: nobody can write to it any more *)
Follows(k) == /\ exe[k] = "running"
              /\ \A p \in DOMAIN held : <<k, "req", "w">> \notin held[p]
              /\ Gone(k)
Killed(k) == exe[k] # "none" /\ Gone(k)
Stuck(k) == exe[k] = "running" /\ exe' = [exe EXCEPT ![k] = "stuck"] /\ UNCHANGED <<alive, open, held, dead>>
Dies == alive /\ alive' = FALSE /\ open' = {} /\ held' = [held EXCEPT ![Tool] = {}] /\ dead' = {} /\ UNCHANGED exe
Next == Dies \/ \E k \in Sessions : Start(k) \/ StartFails(k) \/ Call(k) \/ Free(k) \/ Follows(k) \/ Killed(k) \/ Stuck(k)
Spec == Init /\ [][Next]_vars /\ \A k \in Sessions : WF_vars(Follows(k))

Exact == /\ held[Tool] = UNION {ToolEnds(k) : k \in open}
         /\ dead = {}
         /\ \A k \in Sessions : held[k] = IF exe[k] = "none" THEN {} ELSE ExeEnds(k)
Notices == \A k \in Sessions : (~alive /\ exe[k] = "running") ~> exe[k] # "running"
=============================================================================
