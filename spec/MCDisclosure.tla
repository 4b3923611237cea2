---------------------------- MODULE MCDisclosure ----------------------------
(* Every order of encrypting, publishing and reading the files of a small
   library while somebody collects what can be seen of it. *)
EXTENDS Disclosure
CONSTANT Talkative     \* the build writes keys in its log

Files == {[f |-> "package", d |-> "", pkg |-> "L"], [f |-> "a", d |-> "L", pkg |-> ""],
          [f |-> "sub/package", d |-> "L", pkg |-> "sub"], [f |-> "sub/x", d |-> "sub", pkg |-> ""]}
Said(file) == IF Talkative THEN SaysAll(file) ELSE Says(file)

VARIABLES made, seen, served
vars == <<made, seen, served>>
Init == made = {} /\ seen = {} /\ served = {}
Encrypt(file) == /\ file \notin made
                 /\ made' = made \cup {file}
                 /\ seen' = seen \cup Said(file)
                 /\ UNCHANGED served
Publish(file) == /\ file \in made
                 /\ seen' = seen \cup {Encrypted(file)}
                 /\ UNCHANGED <<made, served>>
Serve(file) == /\ file \in made
               /\ served' = served \cup {file}
               /\ seen' = seen \cup Said(file)
               /\ UNCHANGED made
Fails(file) == /\ seen' = seen \cup Said(file)
               /\ UNCHANGED <<made, served>>
Next == \E file \in Files : Encrypt(file) \/ Publish(file) \/ Serve(file) \/ Fails(file)
Spec == Init /\ [][Next]_vars

NothingRevealed == Reveals(seen) = {}
(* the model can tell: with a key everything below it follows *)
OneKeyIsAll == \A file \in Files : LET all == {Encrypted(x) : x \in Files} IN
                 /\ {Text(x.f) : x \in Files} \subseteq Closure(all \cup {Base})
                 /\ Text(file.f) \in Closure(all \cup {KeyFor(file.d)})
=============================================================================
