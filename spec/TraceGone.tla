----------------------------- MODULE TraceGone -----------------------------
(***************************************************************************)
(* Recorded ends of real processes, checked against Link's ExeFollows and     *)
(* EveryCallReturns: the peer of a process disappears at some point, and the    *)
(* process goes on as it should.                                              *)
(*  exe   the licensing executable after the tool is gone: it ends by itself,    *)
(*        without being killed; a license manager that was set up is shut down    *)
(*        exactly once (a tool that leaves while the license manager works may     *)
(*        be noticed before the setup was recorded, hence at most)                *)
(*  tool  a program using the tool library whose executable was killed: its calls  *)
(*        return; none succeeds after the kill                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
VARIABLES tid, l, st
vars == <<tid, l, st>>
Ev == Traces[tid].ev[l]
Init == tid \in DOMAIN Traces /\ l = 1 /\ st = [up |-> FALSE, killed |-> FALSE, news |-> 0]
Reject(expected) == /\ PrintT(ToJson([verdict |-> "STUCK", tid |-> tid, l |-> l, expected |-> expected]))
                    /\ l' = 0 /\ UNCHANGED <<tid, st>>
Done == IF l = Len(Traces[tid].ev) THEN PrintT(ToJson([verdict |-> "ACCEPT", tid |-> tid])) ELSE TRUE
Go(s2) == l' = l + 1 /\ st' = s2 /\ Done /\ UNCHANGED tid

(* a program's call on a session with a real executable *)
Call == /\ Ev.e = "call"
        /\ IF Ev.alive /\ ~Ev.late /\ (st.killed => ~Ev.ok) /\ (Ev.ok = ~Ev.err) THEN Go([st EXCEPT !.up = Ev.ok])
           ELSE Reject([alive |-> TRUE, late |-> FALSE, ok |-> ~st.killed])
Kill == Ev.e = "kill" /\ Go([st EXCEPT !.killed = TRUE])
(* the executable's end *)
Exe == /\ Ev.e = "exe"
       /\ IF ~Ev.hung /\ ~Ev.san /\ Ev.exit >= 0 /\ Ev.exit < 99
             /\ Ev.frees <= Ev.news /\ (Ev.quiet => Ev.frees = Ev.news)
          THEN Go(st) ELSE Reject("the executable ends by itself")
Tool == /\ Ev.e = "tool"
        /\ IF ~Ev.hung /\ ~Ev.san /\ Ev.exit = 0 THEN Go(st) ELSE Reject("the program is unharmed")
Next == l \in 1..Len(Traces[tid].ev) /\ (Call \/ Kill \/ Exe \/ Tool)
Spec == Init /\ [][Next]_vars
=============================================================================
