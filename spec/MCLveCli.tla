------------------------------ MODULE MCLveCli ------------------------------
(* All argument lists up to MaxArgs over a small vocabulary, against the
   property's own words. *)
EXTENDS LveCli, TLC, Json
CONSTANTS MaxArgs, Emit
Words == {CF, LP, VER, HELP, "junk", "", "g", "r", "dir", "nodir"}
VARIABLES args, x
vars == <<args, x>>

Trim == [w \in Words |-> w]
Configs == {[dirs |-> d, trim |-> Trim, grant |-> {"g", VER}, newfail |-> nf] : d \in {{"dir"}, {"dir", LP}}, nf \in BOOLEAN}
Init == args = <<>> /\ x \in Configs
Next == /\ Len(args) < MaxArgs
        /\ \E w \in Words : args' = Append(args, w)
        /\ UNCHANGED x
        /\ IF Emit /\ \E c \in Configs : x = c /\ ~c.newfail /\ c.dirs = {"dir"}
           THEN PrintT(ToJson([cli |-> TRUE, args |-> args'])) ELSE TRUE
Spec == Init /\ [][Next]_vars

(* exit status tells the truth *)
CheckedOut == \E f, p \in Words : /\ args \in {<<CF, f, LP, p>>, <<LP, p, CF, f>>}
                                 /\ p \in x.dirs /\ f \in x.grant /\ ~x.newfail
Alone == args \in {<<VER>>, <<HELP>>}
Session == args = <<>> \/ (Len(args) = 2 /\ args[1] = LP)
Truth == /\ Runs(x, args) # {}
         /\ \A r \in Runs(x, args) : /\ (r.exit = "any") = Session
                                     /\ (r.exit = "ok") = (CheckedOut \/ Alone)
(* the manager hears nothing unless the arguments are complete, and exactly the
   named feature once *)
Complete == \E f, p \in Words : args \in {<<CF, f, LP, p>>, <<LP, p, CF, f>>}
Manager == \A r \in Runs(x, args) :
             /\ ~Complete => r.lm = <<>>
             /\ \A i \in DOMAIN r.lm : r.lm[i].op = "out" =>
                  \E p \in Words : args \in {<<CF, r.lm[i].arg, LP, p>>, <<LP, p, CF, r.lm[i].arg>>}
             /\ \A i, j \in DOMAIN r.lm : r.lm[i].op = "out" /\ r.lm[j].op = "out" => i = j
             /\ r.exit = "ok" /\ ~Alone => \E i \in DOMAIN r.lm : r.lm[i].op = "out"
=============================================================================
