------------------------------ MODULE MCCrypt ------------------------------
(* A small library encrypted file by file in any order, with damage in between:
   what was encrypted for a place comes out again, and nothing else. *)
EXTENDS CryptPrograms, Integers, TLC, Json
CONSTANTS Emit, Depth
Places == {<<PKG>>, <<"a.moc">>, <<"sub", PKG>>, <<"sub", "x.moc">>}
Src(p) == <<"src", IF p = <<PKG>> THEN "P" ELSE IF p = <<"a.moc">> THEN "A" ELSE IF p = <<"sub", PKG>> THEN "S" ELSE "X">>
L == <<"L">>

VARIABLES fs, made, op
vars == <<fs, made, op>>

Sources == [p \in {Src(q) : q \in Places} |-> Plain(p[2]) @@ [raw |-> p[2]]]
Dirs == [d \in {<<"src">>, L, L \o <<"sub">>, <<"out">>} |-> NoEntry @@ [raw |-> "", by |-> ""]]
Init == /\ fs = [p \in DOMAIN Sources \cup DOMAIN Dirs |-> IF p \in DOMAIN Sources THEN Sources[p] ELSE [k |-> "dir"] @@ Dirs[p]]
        /\ made = [p \in Places |-> <<>>]      \* masks that governed p when it was encrypted, <<>> if it is not there or damaged
        /\ op = <<"init", <<>>>>

Used == UNION {{fs[p].key, fs[p].mask} : p \in DOMAIN fs}
Names == <<"1", "2", "3", "4", "5", "6", "7">>
NextFresh == Names[CHOOSE i \in DOMAIN Names : Names[i] \notin Used /\ \A j \in 1..(i - 1) : Names[j] \in Used]
Put(p, e, raw) == fs' = [q \in DOMAIN fs \cup {p} |-> IF q = p THEN e @@ [raw |-> raw] ELSE fs[q]]
Chain(p) == <<EntryAt(fs, L \o <<PKG>>), EntryAt(fs, L \o <<"sub", PKG>>)>>
Above(p) == IF p = <<PKG>> THEN <<"t">> ELSE IF p = <<"sub", PKG>> \/ p = <<"a.moc">> THEN <<Chain(p)[1]>> ELSE Chain(p)

Enc(p) == /\ op' = <<"enc", p>>
          /\ \E o \in EncIn(fs, Src(p), L, p, NextFresh, "1") :
               IF o.ok THEN /\ Put(L \o p, o.out, "E") /\ made' = [made EXCEPT ![p] = Above(p)]
               ELSE UNCHANGED <<fs, made>>
Damage(p) == /\ op' = <<"damage", p>>
             /\ IsFile(fs, L \o p)
             /\ Put(L \o p, [fs[L \o p] EXCEPT !.ok = FALSE, !.raw = "D"], "D") /\ made' = [made EXCEPT ![p] = <<>>]
Remove(p) == /\ op' = <<"remove", p>>
             /\ IsFile(fs, L \o p)
             /\ fs' = [q \in DOMAIN fs \ {L \o p} |-> fs[q]] /\ made' = [made EXCEPT ![p] = <<>>]
Do == \E p \in Places : Enc(p) \/ Damage(p) \/ Remove(p)
(* abstract: for each place absent, not decrypted now, or decrypted *)
State(f) == ToString([p \in Places |-> IF ~IsFile(f, L \o p) THEN "absent"
                        ELSE IF DecOuts(f, L, p, <<"out", "o">>, "1") = {Failed} THEN "refused" ELSE "fine"])
Next == /\ Do
        /\ IF Emit THEN PrintT(ToJson([edge |-> TRUE, from |-> State(fs), id |-> op', to |-> State(fs')])) ELSE TRUE
Spec == Init /\ [][Next]_vars
Short == TLCGet("level") < Depth
View0 == <<fs, made>>

(* what was encrypted and not touched since, with the package files it was
   encrypted under still there, comes out exactly *)
RoundTrip == \A p \in Places : made[p] # <<>> /\ made[p] = Above(p) /\ PlaceKey(fs, L, p, "1") # "broken" =>
               DecOuts(fs, L, p, <<"out", "o">>, "1") = {[ok |-> TRUE, out |-> Plain(Src(p)[2])]}
(* nothing else comes out *)
NothingElse == \A p \in Places : \A o \in DecOuts(fs, L, p, <<"out", "o">>, "1") : o.ok => o.out.v = Src(p)[2] /\ made[p] # <<>>
(* sources stay *)
Untouched == \A p \in DOMAIN Sources : fs[p] = Sources[p]
=============================================================================
