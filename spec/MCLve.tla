------------------------------- MODULE MCLve -------------------------------
(***************************************************************************)
(* Exhaustive exploration of LveSession for a small library, every message *)
(* kind in every reachable session state, several peers, license manager    *)
(* behaviours and tampering.  The properties are stated over what has been   *)
(* observed (h), not over the session state the specification keeps.         *)
(***************************************************************************)
EXTENDS LveSession, TLC, Json

CONSTANTS Peers, Globals, Grants, NewFails, Tampers, EmitGraph

Keys == {"tool0", "tool1"}
E(k, v, key, mask, home) == [k |-> k, v |-> v, key |-> key, mask |-> mask, ok |-> TRUE, home |-> home]
P1 == <<"package.moc">>
A == <<"a.moc">>
SP == <<"sub", "package.moc">>
SX == <<"sub", "x.moc">>
R == <<"r.txt">>
Lib0 == [p \in {P1, A, SP, SX, R, <<"sub">>} |->
  CASE p = P1 -> E("enc", "vP", "base", "m:", P1)
    [] p = A -> E("enc", "vA", "m:", "", A)
    [] p = SP -> E("enc", "vS", "m:", "m:sub", SP)
    [] p = SX -> E("enc", "vX", "m:sub", "", SX)
    [] p = R -> E("plain", "vR", "", "", R)
    [] OTHER -> [NoEntry EXCEPT !.k = "dir"]]

M(w, a, dl, arg, path) ==
  [w |-> w, a |-> a, dl |-> dl, canon |-> TRUE, arg |-> arg, trim |-> arg, libok |-> arg = "/L",
   seps |-> path, npath |-> path, odd |-> FALSE, io |-> FALSE]
I(v) == [t |-> "i", v |-> v]
Sized(w, arg) == M(w, <<I(1)>>, 1, arg, <<>>)
FileMsg(p) == M("FILE", <<I(1)>>, 1, "", p)
IoMsg(p) == [FileMsg(p) EXCEPT !.io = TRUE]

Msgs ==
  [ver1 |-> M("VERSION", <<I(1)>>, 0, "", <<>>), ver0 |-> M("VERSION", <<I(0)>>, 0, "", <<>>),
   ver9 |-> M("VERSION", <<I(9)>>, 0, "", <<>>),
   verx |-> M("VERSION", <<[t |-> "x", v |-> 0]>>, 0, "", <<>>), ver |-> M("VERSION", <<>>, 0, "", <<>>),
   tools |-> M("TOOLS", <<>>, 0, "", <<>>), tools1 |-> M("TOOLS", <<I(1)>>, 0, "", <<>>),
   lib |-> Sized("LIB", "/L"), libmiss |-> Sized("LIB", "/none"), lib0 |-> M("LIB", <<I(0)>>, 0, "", <<>>),
   libshort |-> M("LIB", <<I(2)>>, 1, "/L", <<>>), liblong |-> M("LIB", <<I(1)>>, 2, "/L", <<>>),
   featg |-> Sized("FEATURE", "g"), featr |-> Sized("FEATURE", "r"), featneg |-> M("FEATURE", <<I(-1)>>, 1, "g", <<>>),
   featlong |-> M("FEATURE", <<I(1)>>, 3, "g", <<>>),
   retg |-> Sized("RETURNFEATURE", "g"), retr |-> Sized("RETURNFEATURE", "r"),
   lic |-> Sized("LICENSE", "p"), retlic |-> Sized("RETURNLICENSE", "p"),
   fP |-> FileMsg(P1), fA |-> FileMsg(A), fS |-> FileMsg(SP), fX |-> FileMsg(SX), fR |-> FileMsg(R),
   fD |-> FileMsg(<<"sub">>), fN |-> FileMsg(<<"nope.moc">>), fU |-> FileMsg(<<"..", "a.moc">>),
   fPio |-> IoMsg(P1), fAio |-> IoMsg(A), fSio |-> IoMsg(SP), fXio |-> IoMsg(SX), fRio |-> IoMsg(R),
   fshort |-> M("FILE", <<I(2)>>, 1, "", A),
   yes |-> M("YES", <<>>, 0, "", <<>>), no |-> Sized("NO", "n"), fcont |-> Sized("FILECONT", "n"),
   tlist |-> Sized("TOOLLIST", "n"), error |-> M("ERROR", <<I(1), I(1)>>, 1, "n", <<>>),
   notsimple |-> M("NOTSIMPLE", <<>>, 0, "", <<>>),
   unknown |-> M("FOO", <<>>, 0, "", <<>>), lower |-> M("version", <<I(1)>>, 0, "", <<>>), empty |-> M("", <<>>, 0, "", <<>>)]

VARIABLES x, s, fs, h, last
vars == <<x, s, fs, h, last>>

Init ==
  /\ x \in [keys : {Keys}, peer : Peers, global : Globals, grant : Grants, infail : {{"r"}}, newfail : NewFails, sfx : {""}]
  /\ s = InitSession
  /\ fs = Lib0
  /\ h = [version |-> FALSE, named |-> "", nameds |-> 0, calls |-> 0, served |-> {}, ups |-> 0, yesFor |-> {}, globalOut |-> FALSE]
  /\ last = [id |-> "", r |-> Yes, lm |-> <<>>]

LmOps(o) == {o.lm[i].op : i \in 1..Len(o.lm)}
History(o, m) ==
  [version |-> h.version \/ (m.w = "VERSION" /\ o.r = Version(OwnVersion)),
   named |-> IF m.w = "LIB" /\ o.s.lib # "" THEN o.s.lib ELSE h.named,
   nameds |-> IF m.w = "LIB" /\ s.phase # "LICENSE" /\ o.s.phase = "LICENSE" THEN h.nameds + 1 ELSE h.nameds,
   calls |-> IF o.lm # <<>> THEN 1 ELSE h.calls,
   served |-> IF o.r.c = "FILECONT" THEN h.served \cup {<<m.npath, o.r.d>>} ELSE h.served,
   ups |-> h.ups + Cardinality({i \in 1..Len(o.lm) : o.lm[i].op = "new"}),
   yesFor |-> IF m.w = "FEATURE" /\ o.r = Yes THEN h.yesFor \cup {m.arg} ELSE h.yesFor,
   globalOut |-> h.globalOut \/ \E i \in 1..Len(o.lm) : o.lm[i] = Call("out", x.global) /\ Has(x.grant, x.global)]

Request(id) ==
  \E o \in Respond(x, s, Lib0, fs, Msgs[id]) :
    /\ s' = o.s
    /\ h' = History(o, Msgs[id])
    /\ last' = [id |-> id, r |-> o.r, lm |-> o.lm]
    /\ UNCHANGED <<x, fs>>

(* one file at a time is tampered with, exchanged or removed, and restored *)
Broken(p) == [fs[p] EXCEPT !.ok = FALSE]
Tamper(t) ==
  /\ s.phase = "LICENSE"
  /\ fs' = CASE t = "flipX" -> [Lib0 EXCEPT ![SX] = [@ EXCEPT !.ok = FALSE]]
             [] t = "flipS" -> [Lib0 EXCEPT ![SP] = [@ EXCEPT !.ok = FALSE]]
             [] t = "flipP" -> [Lib0 EXCEPT ![P1] = [@ EXCEPT !.ok = FALSE]]
             [] t = "swapXA" -> [Lib0 EXCEPT ![SX] = Lib0[A]]
             [] t = "delA" -> [Lib0 EXCEPT ![A] = NoEntry]
             [] t = "restore" -> Lib0
  /\ fs' # fs
  /\ last' = [id |-> t, r |-> Yes, lm |-> <<>>]
  /\ UNCHANGED <<x, s, h>>

Next == (\E id \in DOMAIN Msgs : Request(id)) \/ (\E t \in Tampers : Tamper(t))
Spec == Init /\ [][Next]_vars
View == <<x, s, fs, h>>

---------------------------------------------------------------------------
(* C01 *)
OnlyTrustedGetContent == h.served # {} => x.peer \in x.keys
(* C02 *)
ContentNeedsSession == h.served # {} => h.version /\ h.named # ""
LicenseNeedsSession == h.calls > 0 => h.version /\ h.named # ""
NamedOnce == h.nameds <= 1
RefusedChangesNothing == [][ last'.r = Err(1) /\ last'.id \in DOMAIN Msgs => s' = s /\ last'.lm = <<>> ]_vars
PhaseOnlyForward ==
  LET rank(p) == CASE p = "VERSION" -> 0 [] p = "TOOLS" -> 1 [] p = "LIB" -> 2 [] OTHER -> 3
  IN [][ rank(s.phase) <= rank(s'.phase) ]_vars
(* C03: every request has an outcome, with a reply of the documented kind *)
AlwaysAnswered == \A id \in DOMAIN Msgs : Respond(x, s, Lib0, fs, Msgs[id]) # {}
ReplyKinds == last.r.c \in {"YES", "NO", "VERSION", "NOTSIMPLE", "FILECONT", "ERROR"}
              /\ (last.r.c = "ERROR" => last.r.n \in 1..8)
(* C04 *)
ManagerOnce == h.ups <= 1
YesOnlyIfGranted == \A f \in h.yesFor : Has(x.grant, f)
AskedOnce == \A i, j \in 1..Len(last.lm) : i # j => last.lm[i].op # last.lm[j].op
(* C05 *)
GlobalGate == h.served # {} /\ x.global # "" => h.globalOut
NeverAskedWithout == x.global = "" => ~h.globalOut
(* C06, C07: content is always what was encrypted at that place *)
OnlyOriginal == \A c \in h.served : c[1] \in DOMAIN Lib0 /\ c[2] = Lib0[c[1]].v
(* C07: intact files are served whatever was tampered with before *)
IntactServed ==
  fs = Lib0 /\ x.peer \in x.keys /\ s.phase = "LICENSE" /\ s.libok /\ ~s.blocked =>
    \A id \in {"fP", "fA", "fS", "fX", "fR"} :
      {o.r : o \in Respond(x, s, Lib0, fs, Msgs[id])} = {Cont(Lib0[Msgs[id].npath].v)}
(* C11 *)
NoEscape == \A c \in h.served : \A i \in 1..Len(c[1]) : c[1][i] # ".."
(* C20 *)
VersionFirst == ~h.version => s.phase = "VERSION"

---------------------------------------------------------------------------
(* the graph from which sessions to run are derived *)
StateKey(ss, ff) == [s |-> ss, t |-> {<<p, ff[p]>> : p \in {q \in DOMAIN ff : ff[q] # Lib0[q]}}]
Emit == ~EmitGraph \/ PrintT(ToJson([edge |-> TRUE, x |-> x, from |-> ToString(StateKey(s, fs)), id |-> last'.id, to |-> ToString(StateKey(s', fs'))]))
GraphView == <<x, s, fs>>
Bounded == s.news <= 2
=============================================================================
