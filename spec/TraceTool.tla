----------------------------- MODULE TraceTool -----------------------------
(* Recorded runs of programs using the real tool library against a scripted
   executable, checked against ToolApi.  Ev.k numbers the connection: a program
   may use several at a time, each on its own. *)
EXTENDS ToolApi, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
VARIABLES tid, l, st, h
vars == <<tid, l, st, h>>
Ev == Traces[tid].ev[l]
S == st[Ev.k]
NoFile == [open |-> FALSE, d |-> "", size |-> 0, off |-> 0]

Init == tid \in DOMAIN Traces /\ l = 1 /\ st = [k \in 0..3 |-> "new"] /\ h = [k \in 0..7 |-> NoFile]

Reject(expected) == /\ PrintT(ToJson([verdict |-> "STUCK", tid |-> tid, l |-> l, st |-> st, expected |-> expected]))
                    /\ l' = 0 /\ UNCHANGED <<tid, st, h>>
Done == IF l = Len(Traces[tid].ev) THEN PrintT(ToJson([verdict |-> "ACCEPT", tid |-> tid])) ELSE TRUE
Go(st2, h2) == l' = l + 1 /\ st' = [st EXCEPT ![Ev.k] = st2] /\ h' = h2 /\ Done /\ UNCHANGED tid

(* every result comes in bounded time from a living process *)
Alive == Ev.alive /\ ~Ev.late /\ ~Ev.san

(* a program that does not ask for the error gets the same results without it *)
NoErr == Traces[tid].noerr
Fit(c, a) == IF NoErr THEN ~Ev.r.err /\ \E v \in Verdicts(c, a) : v.ok = Ev.r.ok ELSE Allowed(c, a, Ev.r)

(* starting: Ev.able says whether the peer completes the handshake: "yes", "no",
   or "may" when it leaves just as the tool completes it *)
Start == /\ Ev.e = "start"
         /\ IF Alive /\ Ev.r.err = (~NoErr /\ ~Ev.r.ok) /\ (Ev.able = "yes" => Ev.r.ok) /\ (Ev.able = "no" => ~Ev.r.ok)
            THEN Go(IF Ev.r.ok THEN (IF Ev.able = "yes" THEN "up" ELSE "lost") ELSE "down", h)
            ELSE Reject([able |-> Ev.able])

(* a call while connected; when the connection is lost, all later calls fail *)
Call == /\ Ev.e = "call"
        /\ LET a == IF S = "lost" THEN [Ev.a EXCEPT !.fate = "none"] ELSE Ev.a
               k == Ev.c.slot
               reqok == IF Ev.seen THEN RequestOk(Ev.c, Ev.m) /\ ~Ev.extra /\ a.fate # "unsent" ELSE a.fate # "full"
               size == IF Ev.c.op = "file" /\ Ev.r.ok THEN a.m.dl ELSE 0
               kept == a.fate \in {"full", "unsent"}
           IN IF S \in {"up", "lost"} /\ Alive /\ reqok /\ Fit(Ev.c, a)
              THEN Go(IF kept THEN S ELSE "lost",
                      IF Ev.c.op = "file"
                      THEN [h EXCEPT ![k] = IF Ev.r.ok THEN [open |-> TRUE, d |-> a.d, size |-> size, off |-> 0] ELSE NoFile]
                      ELSE h)
              ELSE Reject([request |-> reqok, verdicts |-> Verdicts(Ev.c, a)])

Size == /\ Ev.e = "size"
        /\ IF Alive /\ Ev.open = h[Ev.slot].open /\ (Ev.open => Ev.n = h[Ev.slot].size)
           THEN Go(S, h) ELSE Reject([size |-> h[Ev.slot].size, open |-> h[Ev.slot].open])

(* a read: Ev.at are the places of that file's content where the bytes are found *)
Read == /\ Ev.e = "read"
        /\ LET f == h[Ev.slot] IN
           IF ~Alive \/ Ev.open # f.open THEN Reject([open |-> f.open])
           ELSE IF ~f.open THEN Go(S, h)
           ELSE IF AtEnd(f)
                THEN IF Ev.eof THEN Go(S, h) ELSE Reject("end of file")
                ELSE IF ~Ev.eof /\ Ev.got = ReadLen(f, Ev.n)
                        /\ (Ev.got = 0 \/ (Ev.d = f.d /\ \E i \in 1..Len(Ev.at) : Ev.at[i] = f.off))
                     THEN Go(S, [h EXCEPT ![Ev.slot].off = @ + Ev.got])
                     ELSE Reject([off |-> f.off, len |-> ReadLen(f, Ev.n), d |-> f.d])

FFree == /\ Ev.e = "ffree"
         /\ IF Alive /\ Ev.ok THEN Go(S, [h EXCEPT ![Ev.slot] = NoFile]) ELSE Reject("freed")

(* the connection is given up (by the tool or lost) *)
Drop == /\ Ev.e = "drop"
        /\ Go("lost", h)
Close == /\ Ev.e = "close"
         /\ IF Alive /\ Ev.ok /\ Ev.ended THEN Go("down", h) ELSE Reject("the session is closed")
Next == l \in 1..Len(Traces[tid].ev) /\ (Start \/ Call \/ Size \/ Read \/ FFree \/ Drop \/ Close)
Spec == Init /\ [][Next]_vars
=============================================================================
