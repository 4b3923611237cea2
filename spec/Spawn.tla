------------------------------- MODULE Spawn -------------------------------
(***************************************************************************)
(* Threads of one program start licensing executables at the same time.        *)
(*                                                                          *)
(* A start makes two pipes, copies the process (fork), gives up the ends that   *)
(* are for the executable, while the copy takes these as standard input and       *)
(* output and becomes the executable (exec).  A copy has every descriptor the       *)
(* program has at that moment, also those another thread is just using for a          *)
(* start; exec closes the descriptors marked for it.                                   *)
(*   Marks = "born"   every end is marked when the pipe is made                          *)
(*           "later"  every end is marked in a step of its own                           *)
(*           "own"    only the ends the program keeps are marked, in a step of its own     *)
(*           "none"   none is                                                          *)
(* Only with "born" every executable holds the ends of its own session only, and       *)
(* so the end of one of them, or of the program, is noticed by the other side            *)
(* whatever the other sessions do.                                                    *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANTS Threads, Marks
Ends(k) == {<<k, "req", "r">>, <<k, "req", "w">>, <<k, "ans", "r">>, <<k, "ans", "w">>}
ToolEnds(k) == {<<k, "req", "w">>, <<k, "ans", "r">>}
ExeEnds(k) == {<<k, "req", "r">>, <<k, "ans", "w">>}

VARIABLES pc,      \* of each thread: idle, pipes, marked, forked, open, waiting (in a call), told (the call failed), closed
          exe,     \* of each thread's executable: none, copy (between fork and exec), running, gone
          tool,    \* descriptors of the program
          marked,  \* those of them that exec closes
          held     \* descriptors of each copy or executable
vars == <<pc, exe, tool, marked, held>>
Init == /\ pc = [k \in Threads |-> "idle"] /\ exe = [k \in Threads |-> "none"]
        /\ tool = {} /\ marked = {} /\ held = [k \in Threads |-> {}]

Pipes(k) == /\ pc[k] = "idle" /\ pc' = [pc EXCEPT ![k] = "pipes"]
            /\ tool' = tool \cup Ends(k)
            /\ marked' = IF Marks = "born" THEN marked \cup Ends(k) ELSE marked
            /\ UNCHANGED <<exe, held>>
Mark(k) == /\ pc[k] = "pipes" /\ pc' = [pc EXCEPT ![k] = "marked"]
           /\ marked' = marked \cup (CASE Marks = "later" -> Ends(k) [] Marks = "own" -> ToolEnds(k) [] OTHER -> {})
           /\ UNCHANGED <<exe, tool, held>>
Fork(k) == /\ pc[k] = "marked" /\ pc' = [pc EXCEPT ![k] = "forked"]
           /\ exe' = [exe EXCEPT ![k] = "copy"]
           /\ held' = [held EXCEPT ![k] = {<<e, e \in marked>> : e \in tool}]
           /\ UNCHANGED <<tool, marked>>
Exec(k) == /\ exe[k] = "copy" /\ exe' = [exe EXCEPT ![k] = "running"]
           /\ held' = [held EXCEPT ![k] = {<<e, FALSE>> : e \in ExeEnds(k)} \cup {h \in @ : ~h[2] /\ h[1] \notin Ends(k)}]
           /\ UNCHANGED <<pc, tool, marked>>
GiveUp(k) == /\ pc[k] = "forked" /\ pc' = [pc EXCEPT ![k] = "open"]
             /\ tool' = tool \ ExeEnds(k) /\ marked' = marked \ ExeEnds(k)
             /\ UNCHANGED <<exe, held>>
Call(k) == pc[k] = "open" /\ pc' = [pc EXCEPT ![k] = "waiting"] /\ UNCHANGED <<exe, tool, marked, held>>
Answer(k) == pc[k] = "waiting" /\ exe[k] = "running" /\ pc' = [pc EXCEPT ![k] = "open"] /\ UNCHANGED <<exe, tool, marked, held>>
(* end of file: nobody has the answering end any more *)
Nobody(e) == e \notin tool /\ \A j \in Threads : \A m \in BOOLEAN : <<e, m>> \notin held[j]
Told(k) == pc[k] = "waiting" /\ Nobody(<<k, "ans", "w">>) /\ pc' = [pc EXCEPT ![k] = "told"] /\ UNCHANGED <<exe, tool, marked, held>>
Close(k) == /\ pc[k] \in {"open", "told"} /\ pc' = [pc EXCEPT ![k] = "closed"]
            /\ tool' = tool \ ToolEnds(k) /\ marked' = marked \ ToolEnds(k)
            /\ UNCHANGED <<exe, held>>
Leave(k) == exe' = [exe EXCEPT ![k] = "gone"] /\ held' = [held EXCEPT ![k] = {}] /\ UNCHANGED <<pc, tool, marked>>
Crash(k) == exe[k] = "running" /\ Leave(k)
Follows(k) == exe[k] = "running" /\ Nobody(<<k, "req", "w">>) /\ Leave(k)
Next == \E k \in Threads : Pipes(k) \/ Mark(k) \/ Fork(k) \/ Exec(k) \/ GiveUp(k) \/ Call(k) \/ Answer(k) \/ Told(k) \/ Close(k) \/ Crash(k) \/ Follows(k)
Spec == Init /\ [][Next]_vars
             /\ \A k \in Threads : WF_vars(Mark(k) \/ Fork(k) \/ GiveUp(k)) /\ WF_vars(Exec(k)) /\ WF_vars(Told(k)) /\ WF_vars(Follows(k))

(* an executable has its own ends and nothing else *)
OwnOnly == \A k \in Threads : exe[k] = "running" => held[k] = {<<e, FALSE>> : e \in ExeEnds(k)}
(* whatever the other sessions do, a call to an executable that is gone returns *)
Returns == \A k \in Threads : (pc[k] = "waiting" /\ exe[k] = "gone") ~> pc[k] # "waiting"
(* and a closed session leaves no executable behind *)
Ends_ == \A k \in Threads : (pc[k] = "closed") ~> exe[k] = "gone"
=============================================================================
