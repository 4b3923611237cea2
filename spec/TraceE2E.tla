------------------------------ MODULE TraceE2E -----------------------------
(***************************************************************************)
(* Recorded runs of programs using the real tool library with a real           *)
(* licensing executable, checked against the composition of ToolApi and         *)
(* LveSession: the result of every call is what ToolApi makes of a reply that    *)
(* LveSession allows, file content is read as ToolApi says.                     *)
(***************************************************************************)
EXTENDS LveSession, Packaged, TLC, Json, IOUtils
Tool == INSTANCE ToolApi

Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
VARIABLES tid, l, up, s, fs, h
vars == <<tid, l, up, s, fs, h>>

Range(f) == {f[i] : i \in DOMAIN f}
X(t) == [keys |-> Range(t.x.keys), peer |-> t.x.peer, global |-> t.x.global,
         grant |-> Range(t.x.grant), infail |-> Range(t.x.infail), newfail |-> t.x.newfail, sfx |-> t.x.sfx]
Tree(list) == [p \in {list[i].p : i \in DOMAIN list} |->
                 LET e == CHOOSE e \in Range(list) : e.p = p IN
                 [k |-> e.k, v |-> e.v, key |-> e.key, mask |-> e.mask, ok |-> e.ok, home |-> e.home]]
XS == [i \in DOMAIN Traces |-> X(Traces[i])]
(* the library: as listed, or as unpacked from a container *)
FS0 == [i \in DOMAIN Traces |-> IF "w" \in DOMAIN Traces[i] THEN Unpacked(Pk!WorldOf(Traces[i].w), Traces[i].same, Traces[i].man)
                                ELSE Tree(Traces[i].fs)]
SIZE(t, v) == LET m == {e \in Range(Traces[t].sizes) : e.v = v} IN IF m = {} THEN -1 ELSE (CHOOSE e \in m : TRUE).n
NoFile == [open |-> FALSE, d |-> "", size |-> 0, off |-> 0]

Init == tid \in DOMAIN Traces /\ l = 1 /\ up = FALSE /\ s = InitSession /\ fs = FS0[tid] /\ h = [k \in 0..7 |-> NoFile]
Ev == Traces[tid].ev[l]
Reject(expected) == /\ PrintT(ToJson([verdict |-> "STUCK", tid |-> tid, l |-> l, s |-> s, expected |-> expected]))
                    /\ l' = 0 /\ UNCHANGED <<tid, up, s, fs, h>>
Done == IF l = Len(Traces[tid].ev) THEN PrintT(ToJson([verdict |-> "ACCEPT", tid |-> tid])) ELSE TRUE
Go(up2, s2, h2) == l' = l + 1 /\ up' = up2 /\ s' = s2 /\ h' = h2 /\ Done /\ UNCHANGED <<tid, fs>>
Alive == Ev.alive /\ ~Ev.late /\ ~Ev.san

Made == /\ Ev.e = "packaged"
        /\ IF Ev.ok /\ Pk!Final(Pk!WorldOf(Traces[tid].w)).exit = 0 THEN Go(up, s, h) ELSE Reject("a container")
Start == /\ Ev.e = "start"
         /\ IF ~up /\ Alive /\ Ev.r.ok /\ ~Ev.r.err THEN Go(TRUE, InitSession, h) ELSE Reject("a session")

(* the answer of the executable as the tool gets it *)
I(v) == [t |-> "i", v |-> v]
Answer(r) ==
  LET n == IF r.c = "FILECONT" THEN SIZE(tid, r.d) ELSE 0
  IN [fate |-> "full", first |-> TRUE, d |-> r.d,
      m |-> [w |-> r.c, canon |-> TRUE, dl |-> n,
             a |-> CASE r.c = "VERSION" -> <<I(r.n)>> [] r.c \in {"YES", "NOTSIMPLE"} -> <<>>
                     [] r.c = "ERROR" -> <<I(r.n), I(n)>> [] OTHER -> <<I(n)>>]]
(* the text of an error reply or refusal arrives: Ev.r.says lists the manager's
   messages found in the error *)
Carried(r) == r.d = "*" \/ \E i \in DOMAIN Ev.r.says : Ev.r.says[i] = r.d
Fits(c, o) ==
  \E v \in Tool!Verdicts(c, Answer(o.r)) :
     Tool!Fits(v, [Ev.r EXCEPT !.has = Carried(o.r)])

Call1 == /\ Ev.e = "call"
         /\ IF ~(up /\ Alive) THEN Reject("a result")
            ELSE LET outs == Respond(XS[tid], s, FS0[tid], fs, Ev.m)
                     (* a request longer than a record may be refused before it is sent *)
                     nosent == IF Tool!TooLong(Ev.c) /\ Ev.lm = <<>> /\ Tool!Fits(Tool!Fail("toolong"), Ev.r) THEN {[s |-> s, r |-> [d |-> ""]]} ELSE {}
                     fit == nosent \cup {o \in outs : Fits(Ev.c, o) /\ o.lm = Ev.lm}
                     k == Ev.c.slot
                 IN IF fit = {} THEN Reject({[r |-> o.r, lm |-> o.lm] : o \in outs})
                    ELSE \E o \in fit :
                           Go(up, o.s, IF Ev.c.op # "file" THEN h
                                       ELSE [h EXCEPT ![k] = IF Ev.r.ok THEN [open |-> TRUE, d |-> o.r.d, size |-> SIZE(tid, o.r.d), off |-> 0] ELSE NoFile])

Size == /\ Ev.e = "size"
        /\ IF Alive /\ Ev.open = h[Ev.slot].open /\ (Ev.open => Ev.n = h[Ev.slot].size)
           THEN Go(up, s, h) ELSE Reject([size |-> h[Ev.slot].size, open |-> h[Ev.slot].open])
Read == /\ Ev.e = "read"
        /\ LET f == h[Ev.slot] IN
           IF ~Alive \/ Ev.open # f.open THEN Reject([open |-> f.open])
           ELSE IF ~f.open THEN Go(up, s, h)
           ELSE IF Tool!AtEnd(f)
                THEN IF Ev.eof THEN Go(up, s, h) ELSE Reject("end of file")
                ELSE IF ~Ev.eof /\ Ev.got = Tool!ReadLen(f, Ev.n)
                        /\ (Ev.got = 0 \/ (Ev.d = f.d /\ \E i \in 1..Len(Ev.at) : Ev.at[i] = f.off))
                     THEN Go(up, s, [h EXCEPT ![Ev.slot].off = @ + Ev.got])
                     ELSE Reject([off |-> f.off, len |-> Tool!ReadLen(f, Ev.n), d |-> f.d])
FFree == /\ Ev.e = "ffree"
         /\ IF Alive /\ Ev.ok THEN Go(up, s, [h EXCEPT ![Ev.slot] = NoFile]) ELSE Reject("freed")
(* ending the session ends the executable, in order *)
Close == /\ Ev.e = "close"
         /\ IF Alive /\ Ev.ok /\ Ev.ended /\ ~Ev.exesan /\ Ev.lm = (IF up THEN Farewell(s) ELSE <<>>) THEN Go(FALSE, InitSession, h)
            ELSE Reject([ended |-> TRUE, lm |-> Farewell(s)])
Next == l \in 1..Len(Traces[tid].ev) /\ (Made \/ Start \/ Call1 \/ Size \/ Read \/ FFree \/ Close)
Spec == Init /\ [][Next]_vars
=============================================================================
