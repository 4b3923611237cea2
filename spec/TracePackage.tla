---------------------------- MODULE TracePackage ----------------------------
(***************************************************************************)
(* Recorded runs of packagetool against Packaging.  VF_FOCUS selects what is    *)
(* judged: "content" (C12), "manifest" (C13) or "outcome" (C14).               *)
(***************************************************************************)
EXTENDS Packaging, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
Focus == IOEnv.VF_FOCUS
VARIABLES tid, l
vars == <<tid, l>>
Ev == Traces[tid].ev[l]
(* the container as found: path, identity of the bytes, identity of what the
   packaged executable delivers for it, and if it shows text of the model *)
Content(arch) ==
  LET want == arch.e seen == Range(Ev.entries) IN
  /\ Ev.top                                       \* everything lies below the library's directory
  /\ Len(Ev.entries) = Cardinality(seen)
  /\ {x.p : x \in seen} = DOMAIN want /\ Len(Ev.entries) = Cardinality(DOMAIN want)
  /\ \A x \in seen :
       LET e == want[x.p] IN
       CASE e.k = "manifest" -> TRUE
         [] e.k = "plain" -> x.c = e.c
         [] e.k = "enc" -> x.dec = e.c /\ ~x.leak
ManifestFits(w) ==
  /\ Ev.man.wf
  /\ Range(Ev.man.fields) = Fields(w) /\ Len(Ev.man.fields) = Cardinality(Fields(w))
  /\ Range(Ev.man.exes) = Executables(w) /\ Len(Ev.man.exes) = Cardinality(Executables(w))
  /\ Ev.man.encryption = (Executables(w) # {})
  /\ IF Has(w, "-icon") THEN Len(Ev.man.icons) = 1 /\ Ev.man.icons[1] \in Icons(w) ELSE Ev.man.icons = <<>>
  /\ Ev.man.others = Ev.given                       \* the tool and dependency descriptions, in order
Outcome(r) ==
  /\ Ev.exit = r.exit
  /\ ~Ev.san /\ ~Ev.hung
  /\ CASE r.arch.k = "new" -> Ev.arch = "new"
       [] r.arch.k = "none" -> Ev.arch \in {"none", "asbefore"}
       [] OTHER -> Ev.arch = "asbefore" \/ (Ev.arch = "none" /\ r.exit # 0)
  /\ Ev.touched = <<>>                              \* in the source, the tool's directories, the working directory
  /\ r.exit = 0 => ~Ev.staging
(* an operation failed underneath: a status that names the stage and no container,
   or a container with nothing missing *)
Outlived(w, r) ==
  /\ ~Ev.san /\ ~Ev.hung
  /\ Ev.touched = <<>>
  /\ IF Ev.exit = 0 THEN Ev.arch = "new" /\ Content(r.arch) /\ ManifestFits(w)
     ELSE /\ \E i \in DOMAIN Ev.fault : Ev.exit \in Statuses(w, Ev.fault[i])
          /\ Ev.arch \in {"none", "asbefore"}
Fits(w, r) ==
  CASE Ev.fault # <<>> /\ r.arch.k = "new" -> Outlived(w, r)
    [] Focus = "outcome" -> Outcome(r)
    [] r.arch.k # "new" -> TRUE                      \* what cannot be packaged is judged elsewhere
    [] Ev.exit # 0 \/ Ev.arch # "new" -> FALSE
    [] Focus = "content" -> Content(r.arch)
    [] Focus = "manifest" -> ManifestFits(w)
Expected(w, r) ==
  [exit |-> r.exit, arch |-> r.arch.k,
   missing |-> IF r.arch.k = "new" THEN DOMAIN r.arch.e \ {x.p : x \in Range(Ev.entries)} ELSE {},
   surplus |-> IF r.arch.k = "new" THEN {x.p : x \in Range(Ev.entries)} \ DOMAIN r.arch.e ELSE {},
   fields |-> IF Focus = "manifest" /\ r.arch.k = "new" THEN (Fields(w) \ Range(Ev.man.fields)) ELSE {}]

Init == tid \in DOMAIN Traces /\ l = 1
Reject(x) == /\ PrintT(ToJson([verdict |-> "STUCK", tid |-> tid, l |-> l, expected |-> x])) /\ l' = 0 /\ UNCHANGED tid
Done == IF l = Len(Traces[tid].ev) THEN PrintT(ToJson([verdict |-> "ACCEPT", tid |-> tid])) ELSE TRUE
Next == /\ l \in 1..Len(Traces[tid].ev)
        /\ LET w == WorldOf(Ev) r == Final(w) IN
           IF Fits(w, r) THEN l' = l + 1 /\ Done /\ UNCHANGED tid ELSE Reject(Expected(w, r))
Spec == Init /\ [][Next]_vars
=============================================================================
