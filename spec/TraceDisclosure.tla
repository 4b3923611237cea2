-------------------------- MODULE TraceDisclosure --------------------------
(* Recorded runs of the programs: for every run what of the secrets was found in
   what can be seen of it (found: terms, in whatever notation they were written),
   and whether it did what it does when nobody watches (same). *)
EXTENDS Disclosure, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
VARIABLES tid, l, seen
vars == <<tid, l, seen>>
Range(f) == {f[i] : i \in DOMAIN f}
Ev == Traces[tid].ev[l]
File(e) == [f |-> e.f, d |-> e.d, pkg |-> e.pkg]
Init == tid \in DOMAIN Traces /\ l = 1
        /\ seen = {Encrypted(File(Traces[tid].files[i])) : i \in DOMAIN Traces[tid].files}
Done == IF l = Len(Traces[tid].ev) THEN PrintT(ToJson([verdict |-> "ACCEPT", tid |-> tid])) ELSE TRUE
Next == /\ l \in 1..Len(Traces[tid].ev)
        /\ LET now == seen \cup Range(Ev.found) IN
           IF Reveals(now) = {} /\ Ev.same
           THEN seen' = now /\ l' = l + 1 /\ Done /\ UNCHANGED tid
           ELSE /\ PrintT(ToJson([verdict |-> "STUCK", tid |-> tid, l |-> l, expected |-> [reveals |-> Reveals(now), same |-> Ev.same]]))
                /\ l' = 0 /\ UNCHANGED <<tid, seen>>
Spec == Init /\ [][Next]_vars
=============================================================================
