------------------------------ MODULE TraceKey ------------------------------
(* Runs of the real obfuscate and randomize_key, the headers compiled and evaluated, and files passed between real
   builds, against KeyEmbed. *)
EXTENDS KeyEmbed, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
VARIABLES tid, l
vars == <<tid, l>>
T == Traces[tid].ev
Ev == T[l]
Init == tid \in DOMAIN Traces /\ l = 1
Reject(expected) == /\ PrintT(ToJson([verdict |-> "STUCK", tid |-> tid, l |-> l, expected |-> expected]))
                    /\ l' = 0 /\ UNCHANGED tid
Accept == l' = l + 1 /\ UNCHANGED tid
          /\ IF l = Len(T) THEN PrintT(ToJson([verdict |-> "ACCEPT", tid |-> tid])) ELSE TRUE
Range(f) == {f[i] : i \in DOMAIN f}
(* One header. known: the given bytes are known to the harness (they are not for a key made without the stand-in
   for the random source). The stored key, its stated length, the terminator, and that clearing it clears it. *)
Embed == LET a == [args |-> Ev.args, readable |-> Ev.readable, writable |-> Ev.writable, random |-> Ev.random]
             k == Key(Ev.kind, Ev.given)
         IN IF ~MakeOk(a)
            THEN IF Ev.exit > 0 /\ ~Ev.made THEN Accept ELSE Reject("failure and no header")
            ELSE IF /\ Ev.exit = 0 /\ Ev.made
                    /\ Ev.len = Len(Ev.rec) /\ Ev.term = 0 /\ Ev.cleared /\ ~Ev.shown
                    /\ (Ev.known => Ev.rec = k)
                    /\ (Ev.kind = Random => Ev.len = RandomLength)
                 THEN Accept ELSE Reject(k)
(* Keys made at random: no two are the same, and every byte of them varies (Ev.keys has many). *)
Fresh == IF /\ \A i, j \in DOMAIN Ev.keys : i # j => Ev.keys[i] # Ev.keys[j]
            /\ \A p \in 1..RandomLength : Cardinality({Ev.keys[i][p] : i \in DOMAIN Ev.keys}) > 1
         THEN Accept ELSE Reject("fresh keys")
Before(b) == CHOOSE i \in 1..(l - 1) : T[i].e = "build" /\ T[i].b = b
KeyOf(b) == T[Before(b)].key
Build == IF Ev.from = "" THEN Accept
         ELSE IF Ev.key = KeyOf(Ev.from) THEN Accept ELSE Reject(KeyOf(Ev.from))
(* a file encrypted by build b read by build to: its content came back (got), or it was refused *)
Read == LET keys == [b \in {Ev.b, Ev.to} |-> KeyOf(b)]
        IN IF (CanRead(keys, Ev.b, Ev.to) /\ Ev.ok /\ Ev.got) \/ (~CanRead(keys, Ev.b, Ev.to) /\ ~Ev.ok /\ ~Ev.got)
           THEN Accept ELSE Reject(CanRead(keys, Ev.b, Ev.to))
(* an executable with text keys given with other line ends knows the same tools *)
Login == IF Ev.accepted = (Ev.tool \in Range(Ev.trusted)) THEN Accept ELSE Reject(Ev.tool \in Range(Ev.trusted))
Next == /\ l \in 1..Len(T)
        /\ CASE Ev.e = "embed" -> Embed
             [] Ev.e = "fresh" -> Fresh
             [] Ev.e = "build" -> Build
             [] Ev.e = "read" -> Read
             [] Ev.e = "login" -> Login
             [] OTHER -> Reject("no such event")
Spec == Init /\ [][Next]_vars
=============================================================================
