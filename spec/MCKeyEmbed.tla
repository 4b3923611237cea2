----------------------------- MODULE MCKeyEmbed -----------------------------
EXTENDS KeyEmbed, TLC, Json
CONSTANTS Bytes, MaxLen, MaxBuilds, Emit
VARIABLES ph, kind, given, hdr, mem, builds, files
vars == <<ph, kind, given, hdr, mem, builds, files>>
Junk == {0, 170}
None == [size |-> 0, len |-> 0, stores |-> <<>>]
Seqs == UNION {[1..n -> Bytes] : n \in 1..MaxLen}
Init == /\ ph = "start" /\ kind = "" /\ given = <<>> /\ hdr = None /\ mem = <<>> /\ builds = <<>> /\ files = {}
Give == /\ ph = "start" /\ builds = <<>>
        /\ \E k \in Kinds \cup {Random}, s \in Seqs :
             /\ (~Emit \/ k \in {"LVE_PRIVATE", Random})
             /\ kind' = k /\ given' = s
             /\ (IF Emit THEN PrintT(ToJson([key |-> TRUE, kind |-> k, given |-> s])) ELSE TRUE)
        /\ ph' = "given" /\ UNCHANGED <<hdr, mem, builds, files>>
Make == ph = "given" /\ hdr' = Header(kind, given) /\ ph' = "made" /\ UNCHANGED <<kind, given, mem, builds, files>>
Initialize == ph = "made" /\ \E j \in Junk : mem' = Memory(hdr, j)
              /\ ph' = "ready" /\ UNCHANGED <<kind, given, hdr, builds, files>>
Clear == ph = "ready" /\ mem' = Cleared(hdr, mem) /\ ph' = "cleared" /\ UNCHANGED <<kind, given, hdr, builds, files>>
(* builds; the random source never gives the same key twice *)
Used == {builds[i].key : i \in DOMAIN builds}
Build == /\ ph = "start" /\ Len(builds) < MaxBuilds
         /\ \/ builds' = Append(builds, [key |-> Cardinality(Used) + 1, from |-> 0])
            \/ \E i \in DOMAIN builds : builds' = Append(builds, [key |-> builds[i].key, from |-> i])
         /\ UNCHANGED <<ph, kind, given, hdr, mem, files>>
Encrypt == /\ ph = "start" /\ \E i \in DOMAIN builds : files' = files \cup {i}
           /\ UNCHANGED <<ph, kind, given, hdr, mem, builds>>
Next == Give \/ Make \/ Initialize \/ Clear \/ Build \/ Encrypt
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Exact == ph = "ready" => /\ Recovered(hdr, mem) = Key(kind, given)
                         /\ (kind = Random => Recovered(hdr, mem) = given)
                         /\ (kind \in Kinds /\ CR \notin {given[i] : i \in DOMAIN given} => Recovered(hdr, mem) = given)
                         /\ mem[hdr.len] = 0                       \* usable as a string
InBounds == ph # "start" /\ ph # "given" => \A i \in DOMAIN hdr.stores : hdr.stores[i].at < hdr.size
Gone == ph = "cleared" => \A i \in 0..(hdr.len - 1) : mem[i] = 0
RECURSIVE Root(_)
Root(i) == IF builds[i].from = 0 THEN i ELSE Root(builds[i].from)
Keys == [i \in DOMAIN builds |-> builds[i].key]
Families == \A f \in files, i \in DOMAIN builds : CanRead(Keys, f, i) <=> Root(f) = Root(i)
=============================================================================
