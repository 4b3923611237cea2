----------------------------- MODULE MCPackaged -----------------------------
(* Every small library, packaged, unpacked and read in every order. *)
EXTENDS LveSession, Packaged, TLC
CONSTANTS Deep
VARIABLES w, x, same, fs, s, last
vars == <<w, x, same, fs, s, last>>
F(c, mo) == [c |-> c, size |-> 5, read |-> TRUE, mo |-> mo]
Moc(p) == Pk!Moc(p)
Models == {<<"package.mo">>, <<"a.mo">>, <<"s", "package.mo">>, <<"s", "t", "x.mo">>} \cup (IF Deep THEN {<<"s", "t", "package.mo">>, <<"u", "y.mo">>} ELSE {})
Others == {<<"s", "d.txt">>}
Src(ps) == [p \in ps |-> F("c:" \o Joined(p), p \in Models)]
Worlds == {[args |-> <<"-librarypath", "L", "-version", "1", "-language", "3", "-encrypt", "true">>, dirs |-> {"L"}, exist |-> {"L"}, lib |-> "L", src |-> Src(ps),
            lves |-> [n \in {"lve_linux64"} |-> F("exe", FALSE)], extra |-> e, more |-> [p \in {<<"m.mo">>} |-> F("more", TRUE)], block |-> FALSE, icon |-> "", limit |-> -1,
            zipfail |-> FALSE, mute |-> FALSE, text |-> 5] : ps \in SUBSET (Models \cup Others), e \in {"none", "dir"}}
I(v) == [t |-> "i", v |-> v]
M(wd, a, dl, arg, path) == [w |-> wd, a |-> a, dl |-> dl, canon |-> TRUE, arg |-> arg, trim |-> arg, libok |-> arg = "/L", seps |-> path, npath |-> path, odd |-> FALSE, io |-> FALSE]
VersionM == M("VERSION", <<I(1)>>, 0, "", <<>>)
LibM == M("LIB", <<I(1)>>, 1, "/L", <<>>)
FeatureM == M("FEATURE", <<I(1)>>, 1, "g", <<>>)
FileM(p) == M("FILE", <<I(1)>>, 1, Joined(p), p)
Paths == {Moc(p) : p \in Models} \cup Models \cup Others \cup {<<".library", "m.moc">>, <<".library", "manifest.xml">>, <<".library", "lve_linux64">>}
Init == /\ w \in Worlds /\ same \in BOOLEAN
        /\ x \in [keys : {{"tool0"}}, peer : {"tool0", "other"}, global : {"", "G"}, grant : {{"g"}, {"g", "G"}}, infail : {{}}, newfail : {0}, sfx : {""}]
        /\ fs = Unpacked(w, same, "man")
        /\ s = InitSession /\ last = [m |-> VersionM, r |-> [c |-> "", n |-> 0, d |-> ""], open |-> FALSE]
Req == {VersionM, LibM, FeatureM} \cup {FileM(p) : p \in Paths}
(* the library's directories are not visited in the key mask cache twice: the
   session remembers what it has seen, so orders of requests matter *)
Next == \E m \in Req : \E o \in Respond(x, s, fs, fs, m) :
          /\ s' = o.s /\ last' = [m |-> m, r |-> o.r, open |-> s.phase = "LICENSE"] /\ UNCHANGED <<w, x, same, fs>>
Spec == Init /\ [][Next]_vars
Asked(p) == last.m.w = "FILE" /\ last.m.npath = p
KnownTool == x.peer = "tool0"
Licensed == x.global = "" \/ x.global \in x.grant
(* C19 *)
Delivered == last.open /\ KnownTool /\ Licensed =>
  /\ \A p \in DOMAIN w.src : Asked(IF w.src[p].mo THEN Moc(p) ELSE p) =>
       IF same \/ ~w.src[p].mo THEN last.r = Cont(w.src[p].c) ELSE last.r.c = "ERROR"
  /\ Asked(<<".library", "m.moc">>) /\ w.extra = "dir" /\ same => last.r = Cont("more")
  /\ Asked(<<".library", "manifest.xml">>) => last.r = Cont("man")
NoPlain == last.r.c = "FILECONT" => \A p \in Models : ~Asked(p)
UntrustedNothing == ~KnownTool => last.r.c # "FILECONT"
OtherKeysNothing == ~same /\ last.r.c = "FILECONT" => \A p \in Models : ~Asked(Moc(p))
UnlicensedNothing == ~Licensed => last.r.c # "FILECONT"
=============================================================================
