----------------------------- MODULE TraceHost -----------------------------
(***************************************************************************)
(* Recorded programs using the tool library, against Host: what they look like    *)
(* from inside after every call is what they looked like before the first one,       *)
(* their texts arrive once and in order, what they do at their end is done once,         *)
(* by themselves, and their child is theirs.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
VARIABLES tid, l, first, last
vars == <<tid, l, first, last>>
Ev == Traces[tid].ev[l]
Range(s) == {s[i] : i \in DOMAIN s}
SIGPIPE == 13
Init == tid \in DOMAIN Traces /\ l = 1 /\ first = [op |-> ""] /\ last = [kid |-> "none"]
Reject(x) == /\ PrintT(ToJson([verdict |-> "STUCK", tid |-> tid, l |-> l, expected |-> x])) /\ l' = 0 /\ UNCHANGED <<tid, first, last>>
Done == IF l = Len(Traces[tid].ev) THEN PrintT(ToJson([verdict |-> "ACCEPT", tid |-> tid])) ELSE TRUE
Go == l' = l + 1 /\ Done /\ UNCHANGED tid
Begin == Ev.e = "call" /\ Ev.op = "begin" /\ first' = Ev /\ last' = Ev /\ Go
(* writing to an executable that has ended must not be the end of the program: who has set up nothing
   may find SIGPIPE ignored; everybody else finds what they have set up *)
Kept == {s \in 1..64 : Ev.sigs[s] # first.sigs[s] /\ ~(s = SIGPIPE /\ first.sigs[s] = "default" /\ Ev.sigs[s] = "ignored")} = {}
Same == /\ Ev.mask = first.mask /\ Ev.timer = first.timer /\ Ev.umask = first.umask /\ Ev.env = first.env
        /\ Ev.cwd = first.cwd /\ Ev.locale = first.locale
(* the descriptors it had are what they were; others only while there is a session *)
Descriptors == /\ Range(first.fds) \subseteq Range(Ev.fds)
               /\ Ev.sess = 0 => Range(Ev.fds) = Range(first.fds)
Child == IF Ev.op = "kid" THEN Ev.kid = "there" ELSE Ev.kid = last.kid
Sense == Ev.ok = ~Ev.err /\ (Ev.must => Ev.ok) /\ (Ev.never => ~Ev.ok)
Call == /\ Ev.e = "call" /\ Ev.op # "begin"
        /\ IF Kept /\ Same /\ Descriptors /\ Child /\ Sense THEN Go /\ last' = Ev /\ UNCHANGED first
           ELSE Reject([kept |-> Kept, same |-> Same, descriptors |-> Descriptors, child |-> Child, sense |-> Sense])
End == /\ Ev.e = "end"
       /\ IF /\ Ev.exit = 5 /\ ~Ev.hung /\ ~Ev.san
             /\ Ev.out = Ev.printed                 \* once, in order
             /\ Ev.ran = 1
             /\ Ev.kid = (IF last.kid = "none" THEN 0 - 1 ELSE 7)
             /\ Ev.left = 0                         \* executables that are still there
          THEN Go /\ UNCHANGED <<first, last>>
          ELSE Reject("the program ends as it would have without")
Next == l \in 1..Len(Traces[tid].ev) /\ (Begin \/ Call \/ End)
Spec == Init /\ [][Next]_vars
=============================================================================
