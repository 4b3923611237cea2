----------------------------- MODULE TraceHold -----------------------------
(***************************************************************************)
(* Recorded long use of the real tool library and the real executable, checked  *)
(* against Holdings' Exact: what is held at a mark is what was held when the same  *)
(* sessions and files were open before, and every repetition of the same steps has  *)
(* the same results.                                                         *)
(*  cycle  n repetitions of steps [op, k, slot, ok]; outs: how many different       *)
(*         sequences of results they had                                       *)
(*  mark   descriptors, processes and memory (KB) held at this moment                *)
(* Memory is not exact (allocators keep some): it must not go on growing, that is,    *)
(* not by more than slack in each of the last three intervals.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
VARIABLES tid, l, conf, marks
vars == <<tid, l, conf, marks>>
Ev == Traces[tid].ev[l]
Init == tid \in DOMAIN Traces /\ l = 1 /\ conf = [open |-> {}, files |-> {}] /\ marks = <<>>
Reject(expected) == /\ PrintT(ToJson([verdict |-> "STUCK", tid |-> tid, l |-> l, expected |-> expected]))
                    /\ l' = 0 /\ UNCHANGED <<tid, conf, marks>>
Done == IF l = Len(Traces[tid].ev) THEN PrintT(ToJson([verdict |-> "ACCEPT", tid |-> tid])) ELSE TRUE
Go(c, m) == l' = l + 1 /\ conf' = c /\ marks' = m /\ Done /\ UNCHANGED tid

After(c, s) == CASE s.op = "start" -> [c EXCEPT !.open = IF s.ok THEN @ \cup {s.k} ELSE @]
                 [] s.op = "free" -> [c EXCEPT !.open = @ \ {s.k}]
                 [] s.op = "file" -> [c EXCEPT !.files = IF s.ok THEN @ \cup {s.slot} ELSE @ \ {s.slot}]
                 [] s.op = "ffree" -> [c EXCEPT !.files = @ \ {s.slot}]
                 [] OTHER -> c
RECURSIVE Run(_, _, _)
Run(c, steps, i) == IF i > Len(steps) THEN c ELSE Run(After(c, steps[i]), steps, i + 1)

Cycle == /\ Ev.e = "cycle"
         /\ IF Ev.alive /\ ~Ev.late /\ Ev.outs = 1 THEN Go(Run(conf, Ev.steps, 1), marks)
            ELSE Reject("the same results every time")
Mark == /\ Ev.e = "mark"
        /\ LET m == [conf |-> conf, fds |-> Ev.fds, procs |-> Ev.procs, mem |-> Ev.mem]
               same == SelectSeq(marks, LAMBDA x : x.conf = conf) \o <<m>>
               n == Len(same)
               grows == n >= 4 /\ \A i \in n-2..n : same[i].mem > same[i-1].mem + Traces[tid].slack
           IN IF m.fds = same[1].fds /\ m.procs = same[1].procs /\ ~grows THEN Go(conf, Append(marks, m))
              ELSE Reject([fds |-> same[1].fds, procs |-> same[1].procs, mem |-> [i \in 1..n |-> same[i].mem]])
Next == l \in 1..Len(Traces[tid].ev) /\ (Cycle \/ Mark)
Spec == Init /\ [][Next]_vars
=============================================================================
