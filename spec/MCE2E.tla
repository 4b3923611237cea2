------------------------------- MODULE MCE2E -------------------------------
(***************************************************************************)
(* Tool library and executable together: every order of calls on one session *)
(* for a small library.                                                     *)
(***************************************************************************)
EXTENDS LveSession, TLC, Json
CONSTANTS Peers, Globals, Grants, NewFails, EmitGraph
Tool == INSTANCE ToolApi

E(k, v, key, mask, home) == [k |-> k, v |-> v, key |-> key, mask |-> mask, ok |-> TRUE, home |-> home]
P1 == <<"package.moc">>
A == <<"a.moc">>
SX == <<"sub", "x.moc">>
R == <<"r.txt">>
Lib0 == [p \in {P1, A, SX, R, <<"sub">>} |->
  CASE p = P1 -> E("enc", "vP", "base", "m:", P1)
    [] p = A -> E("enc", "vA", "m:", "", A)
    [] p = SX -> E("enc", "vX", "m:", "", SX)
    [] p = R -> E("plain", "vR", "", "", R)
    [] OTHER -> [NoEntry EXCEPT !.k = "dir"]]
Sz(v) == CASE v = "vP" -> 1 [] v = "vA" -> 2 [] v = "vX" -> 0 [] OTHER -> 3

I(v) == [t |-> "i", v |-> v]
M(w, a, dl, arg, path) == [w |-> w, a |-> a, dl |-> dl, canon |-> TRUE, arg |-> arg, trim |-> arg, libok |-> arg = "/L", seps |-> path, npath |-> path, odd |-> FALSE, io |-> FALSE]
V(min, max) == [c |-> [op |-> "version", min |-> min, max |-> max], m |-> M("VERSION", <<I(max)>>, 0, "", <<>>)]
S(op, w, arg, path) == [c |-> [op |-> op, min |-> 0, max |-> 0], m |-> M(w, <<I(1)>>, 1, arg, path)]
Calls ==
  [ver |-> V(1, 1), verwide |-> V(0, 7), verlow |-> V(0, 0), verhigh |-> V(2, 5),
   lib |-> S("lib", "LIB", "/L", <<>>), libmiss |-> S("lib", "LIB", "/none", <<>>),
   libempty |-> [c |-> [op |-> "lib", min |-> 0, max |-> 0], m |-> M("LIB", <<I(0)>>, 0, "", <<>>)],
   featg |-> S("feature", "FEATURE", "g", <<>>), featr |-> S("feature", "FEATURE", "r", <<>>),
   retg |-> S("retfeature", "RETURNFEATURE", "g", <<>>), retr |-> S("retfeature", "RETURNFEATURE", "r", <<>>),
   lic |-> S("license", "LICENSE", "p", <<>>), retlic |-> S("retlicense", "RETURNLICENSE", "p", <<>>),
   fP |-> S("file", "FILE", "", P1), fA |-> S("file", "FILE", "", A), fX |-> S("file", "FILE", "", SX), fR |-> S("file", "FILE", "", R),
   fN |-> S("file", "FILE", "", <<"nope.moc">>), fU |-> S("file", "FILE", "", <<"..", "a.moc">>), fD |-> S("file", "FILE", "", <<"sub">>)]

VARIABLES x, s, f, h, last
vars == <<x, s, f, h, last>>
NoFile == [open |-> FALSE, d |-> "", size |-> 0, off |-> 0]
Init == /\ x \in [keys : {{"tool0"}}, peer : Peers, global : Globals, grant : Grants, infail : {{"r"}}, newfail : NewFails, sfx : {""}]
        /\ s = InitSession /\ f = NoFile /\ h = [ver |-> FALSE, lib |-> FALSE, read |-> <<>>] /\ last = [id |-> "", ok |-> TRUE, kind |-> "", lm |-> <<>>]
Answer(r) ==
  LET n == IF r.c = "FILECONT" THEN Sz(r.d) ELSE 0
  IN [fate |-> "full", first |-> TRUE, d |-> r.d,
      m |-> [w |-> r.c, canon |-> TRUE, dl |-> n,
             a |-> CASE r.c = "VERSION" -> <<I(r.n)>> [] r.c \in {"YES", "NOTSIMPLE"} -> <<>>
                     [] r.c = "ERROR" -> <<I(r.n), I(n)>> [] OTHER -> <<I(n)>>]]
Do(id) ==
  \E o \in Respond(x, s, Lib0, Lib0, Calls[id].m) : \E v \in Tool!Verdicts(Calls[id].c, Answer(o.r)) :
    /\ s' = o.s
    /\ f' = IF Calls[id].c.op # "file" THEN f ELSE IF v.ok THEN [open |-> TRUE, d |-> o.r.d, size |-> Sz(o.r.d), off |-> 0] ELSE NoFile
    /\ h' = [ver |-> h.ver \/ (Calls[id].c.op = "version" /\ o.r.c = "VERSION"), lib |-> h.lib \/ (id \in {"lib", "libmiss"} /\ o.s.phase = "LICENSE" /\ s.phase # "LICENSE"),
             read |-> IF Calls[id].c.op = "file" THEN <<>> ELSE h.read]
    /\ last' = [id |-> id, ok |-> v.ok, kind |-> v.kind, lm |-> o.lm]
    /\ UNCHANGED x
Rd(n) == /\ f.open
         /\ LET g == IF Tool!AtEnd(f) THEN 0 ELSE Tool!ReadLen(f, n) IN
            f' = [f EXCEPT !.off = @ + g] /\ h' = [h EXCEPT !.read = @ \o [i \in 1..g |-> <<f.d, f.off + i>>]]
         /\ last' = [id |-> "read" \o ToString(n), ok |-> TRUE, kind |-> "", lm |-> <<>>] /\ UNCHANGED <<x, s>>
Again == s' = InitSession /\ h' = [h EXCEPT !.ver = FALSE, !.lib = FALSE] /\ last' = [id |-> "again", ok |-> TRUE, kind |-> "", lm |-> Farewell(s)] /\ UNCHANGED <<x, f>>
Next == (\E id \in DOMAIN Calls : Do(id)) \/ (\E n \in {1, 5} : Rd(n)) \/ Again
Spec == Init /\ [][Next]_vars

(* C17 *)
Files == {"fP", "fA", "fX", "fR", "fN", "fU", "fD"}
Licenses == {"featg", "featr", "retg", "retr", "lic", "retlic"}
TooEarly == last.ok /\ last.id \in Files \cup {"featg", "featr", "retg", "retr"} => h.ver /\ h.lib
Twice == [][ last'.id \in {"ver", "verwide", "verlow", "verhigh"} /\ h.ver => ~last'.ok /\ s' = s ]_vars
TwiceLib == [][ last'.id \in {"lib", "libmiss", "libempty"} /\ h.lib => ~last'.ok /\ s' = s ]_vars
FailedChangesNothing == [][ last'.id \in DOMAIN Calls /\ ~last'.ok /\ last'.lm = <<>> /\ last'.id # "verhigh" => [s' EXCEPT !.soiled = FALSE] = [s EXCEPT !.soiled = FALSE] ]_vars
OneFile == \A i \in 1..Len(h.read) : h.read[i] = <<f.d, i>>
LicensesExact == last.id = "featg" /\ last.ok => "g" \in x.grant
Untrusted == x.peer # "tool0" => ~(last.id \in Files /\ last.ok)
Emit == ~EmitGraph \/ PrintT(ToJson([edge |-> TRUE, x |-> x, from |-> ToString(<<s, f>>), id |-> last'.id, to |-> ToString(<<s', f'>>)]))
GraphView == <<x, s, f>>
Bounded == s.news <= 2
=============================================================================
