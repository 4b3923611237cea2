------------------------------ MODULE TraceCli ------------------------------
(* Recorded command line runs of the real executable against LveCli. *)
EXTENDS LveCli, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
VARIABLES tid, l
vars == <<tid, l>>
Range(f) == {f[i] : i \in DOMAIN f}
Ev == Traces[tid].ev[l]
X(e) == [dirs |-> Range(e.dirs), grant |-> Range(e.grant), newfail |-> e.newfail,
         trim |-> [p \in {e.trim[i].p : i \in DOMAIN e.trim} |-> (CHOOSE t \in Range(e.trim) : t.p = p).t]]
Init == tid \in DOMAIN Traces /\ l = 1
Reject(expected) == /\ PrintT(ToJson([verdict |-> "STUCK", tid |-> tid, l |-> l, expected |-> expected]))
                    /\ l' = 0 /\ UNCHANGED tid
Done == IF l = Len(Traces[tid].ev) THEN PrintT(ToJson([verdict |-> "ACCEPT", tid |-> tid])) ELSE TRUE
(* exit "ok": status 0; "fail": another status, not the death by a signal *)
Fits(r) == /\ r.lm = Ev.lm
           /\ CASE r.exit = "ok" -> Ev.exit = 0
                [] r.exit = "fail" -> Ev.exit > 0
                [] OTHER -> Ev.exit >= 0
Run == IF ~Ev.san /\ ~Ev.hung /\ (\E r \in Runs(X(Ev), Ev.args) : Fits(r))
          /\ (Order(Ev.args).k \in {"version", "help"} => Ev.out > 0)
       THEN l' = l + 1 /\ Done /\ UNCHANGED tid
       ELSE Reject(Runs(X(Ev), Ev.args))
Next == l \in 1..Len(Traces[tid].ev) /\ Run
Spec == Init /\ [][Next]_vars
=============================================================================
