------------------------------ MODULE TraceLve ------------------------------
(* Recorded sessions of the real executable, many in one file, checked against
   LveSession.  For every trace TLC prints ACCEPT when some behaviour of the
   specification explains it to its end, STUCK with the allowed outcomes where
   it cannot be continued. *)
EXTENDS LveSession, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VF_TRACES)

VARIABLES tid, l, s, fs
vars == <<tid, l, s, fs>>

Range(f) == {f[i] : i \in DOMAIN f}
X(t) == [keys |-> Range(t.x.keys), peer |-> t.x.peer, global |-> t.x.global,
         grant |-> Range(t.x.grant), infail |-> Range(t.x.infail), newfail |-> t.x.newfail, sfx |-> t.x.sfx, own |-> t.x.own]
Tree(list) == [p \in {list[i].p : i \in DOMAIN list} |->
                 LET e == CHOOSE e \in Range(list) : e.p = p IN
                 [k |-> e.k, v |-> e.v, key |-> e.key, mask |-> e.mask, ok |-> e.ok, home |-> e.home]]

XS == [i \in DOMAIN Traces |-> X(Traces[i])]
FS0 == [i \in DOMAIN Traces |-> Tree(Traces[i].fs)]

Init == /\ tid \in DOMAIN Traces
        /\ l = 1
        /\ s = InitSession
        /\ fs = FS0[tid]

Ev == Traces[tid].ev[l]

(* the repository's own license manager writes down nothing *)
Seen(lm) == IF XS[tid].own THEN <<>> ELSE lm

Matches(o, ev) == /\ o.r.c = ev.r.c
                  /\ o.r.n = ev.r.n
                  /\ (o.r.d = "*" /\ ~ev.r.leak) \/ o.r.d = ev.r.d
                  /\ Seen(o.lm) = ev.lm

Fail(expected) == /\ PrintT(ToJson([verdict |-> "STUCK", tid |-> tid, l |-> l, s |-> s, expected |-> expected]))
                  /\ l' = 0 /\ UNCHANGED <<tid, s, fs>>
Done == IF l = Len(Traces[tid].ev) THEN PrintT(ToJson([verdict |-> "ACCEPT", tid |-> tid])) ELSE TRUE

(* a peer whose certificate is of a kind the executable does not support may be
   refused in the handshake; everybody else gets a session *)
Handshake == /\ Ev.e = "hs"
             /\ IF s.phase = "VERSION" /\ (Ev.ok \/ XS[tid].peer = "unsupported")
                THEN /\ s' = (IF Ev.ok THEN s ELSE [s EXCEPT !.phase = "DEAD"])
                     /\ l' = l + 1 /\ Done /\ UNCHANGED <<tid, fs>>
                ELSE Fail("a handshake")

Request == /\ Ev.e = "req"
           /\ IF s.phase = "DEAD"
              THEN IF Ev.r.c = "EOF" /\ Ev.lm = <<>>
                   THEN l' = l + 1 /\ Done /\ UNCHANGED <<tid, s, fs>>
                   ELSE Fail("end of session")
              ELSE LET outs == Respond(XS[tid], s, FS0[tid], fs, Ev.m)
                       fit == {o \in outs : Matches(o, Ev)}
                       \* an unsupported certificate may also be noticed after the handshake
                       eof == XS[tid].peer = "unsupported" /\ Ev.r.c = "EOF" /\ Ev.lm = <<>>
                   IN IF fit = {} /\ ~eof THEN Fail({[r |-> o.r, lm |-> o.lm] : o \in outs})
                      ELSE \/ \E o \in fit : s' = o.s /\ l' = l + 1 /\ Done /\ UNCHANGED <<tid, fs>>
                           \/ eof /\ s' = [s EXCEPT !.phase = "DEAD"] /\ l' = l + 1 /\ Done /\ UNCHANGED <<tid, fs>>

(* somebody changes a file of the library behind the executable's back *)
Change == /\ Ev.e = "mut"
          /\ fs' = [p \in DOMAIN fs \cup {Ev.p} |-> IF p = Ev.p THEN Ev.b ELSE fs[p]]
          /\ l' = l + 1 /\ Done /\ UNCHANGED <<tid, s>>

(* the peer ends the session (how it does is not important): the executable ends
   by itself, with success, without memory errors, says nothing more, and has
   shut down the license manager once if it had set it up *)
End == /\ Ev.e = "end"
       /\ IF Ev.exit = 0 /\ ~Ev.san /\ ~Ev.hung /\ Ev.extra = 0 /\ Ev.lm = Seen(Farewell(s))
          THEN l' = l + 1 /\ Done /\ UNCHANGED <<tid, s, fs>>
          ELSE Fail([exit |-> 0, san |-> FALSE, hung |-> FALSE, extra |-> 0, lm |-> Farewell(s)])

Next == l \in 1..Len(Traces[tid].ev) /\ (Handshake \/ Request \/ Change \/ End)
Spec == Init /\ [][Next]_vars
=============================================================================
