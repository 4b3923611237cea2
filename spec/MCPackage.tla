----------------------------- MODULE MCPackage -----------------------------
(* Every small world: what the stages of Packaging amount to for the user. *)
EXTENDS Packaging, TLC, Json
CONSTANT Deep
VARIABLES w, s
vars == <<w, s>>
F(c, mo) == [c |-> c, size |-> 5, read |-> TRUE, mo |-> mo]
Big(c, mo) == [F(c, mo) EXCEPT !.size = 50]
Bad(c, mo) == [F(c, mo) EXCEPT !.read = FALSE]
Paths == {<<"package.mo">>, <<"a.mo">>, <<"r", "i.png">>, <<DotLib, "old.txt">>}
IsMo(p) == Last(p) \in {"package.mo", "a.mo"}
Files(p) == {F(Last(p), IsMo(p)), Big(Last(p), IsMo(p)), Bad(Last(p), IsMo(p))}
Trees == UNION {{f \in [ps -> UNION {Files(p) : p \in ps}] : \A p \in ps : f[p] \in Files(p)} : ps \in SUBSET Paths}
Base == <<"-librarypath", "L", "-version", "1", "-language", "3">>
Lines == {Base, Base \o <<"-encrypt", "true">>, Base \o <<"-encrypt", "no">>, Base \o <<"-icon", "x/i.png">>, Base \o <<"-encrypt", "true", "-icon", "x/i.png">>,
          <<>>, <<"-h">>, Base \o <<"-title", "--help">>, SubSeq(Base, 1, 4), Base \o <<"-title">>, Base \o <<"-title", "">>, Base \o <<"-version", "2">>,
          Base \o <<"title", "x">>, Base \o <<"-tools", "no.xml">>, Base \o <<"-title", "-h ">>}
Lves == {<<>>, [n \in {"lve_linux64"} |-> F("lve", FALSE)], [n \in {"lve_linux64", "lve_win64.exe"} |-> F("lve", FALSE)], [n \in {"lve_linux64"} |-> Big("lve", FALSE)]}
More == {<<>>, [p \in {<<"v", "x.txt">>} |-> F("x", FALSE)], [p \in {<<"v", "x.mo">>} |-> F("xm", TRUE)], [p \in {<<"manifest.xml">>} |-> F("m", FALSE)]}
(* in the short form the dimensions that only matter for the arguments stage are fixed *)
Worlds == [args : Lines, dirs : IF Deep THEN {{"L"}, {}} ELSE {{"L"}}, exist : {{"L", "x/i.png"}}, lib : IF Deep THEN {"L", ""} ELSE {"L"},
           src : {t \in Trees : Cardinality(DOMAIN t) = 4 \/ \A p \in DOMAIN t : t[p].size = 5 /\ t[p].read},
           lves : IF Deep THEN Lves ELSE {<<>>, [n \in {"lve_linux64"} |-> F("lve", FALSE)]}, extra : {"none", "dir"}, more : IF Deep THEN More ELSE {<<>>, [p \in {<<"v", "x.mo">>} |-> F("xm", TRUE)]},
           block : BOOLEAN, icon : {"i.png"}, limit : {-1, 20}, zipfail : BOOLEAN, mute : IF Deep THEN BOOLEAN ELSE {FALSE}, text : IF Deep THEN {10, 30} ELSE {10}]
Init == w \in Worlds /\ s = Begin
Next == s.exit < 0 /\ UNCHANGED w /\ \/ s' = Step(w, s)
                                     \/ s.stage \in DOMAIN Status /\ s' = Break(s)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Over == s.exit >= 0
Made == s.arch.k = "new"
(* a container exactly with status 0, unless help was asked for *)
StatusTells == Over => (Made <=> s.exit = 0 /\ Range(w.args) \cap Help = {})
NoEarlyContainer == ~Over => s.arch = NoArch
(* nothing of the source is missing or left over *)
Complete == Made => \A p \in Carried(w) : LET q == IF Encrypting(w) /\ w.src[p].mo THEN Moc(p) ELSE p IN
                       q \in DOMAIN s.arch.e /\ s.arch.e[q].c = w.src[p].c
NothingElse == Made => \A q \in DOMAIN s.arch.e : q[1] = DotLib \/ \E p \in Carried(w) : q \in {p, Moc(p)}
NoPlainModel == Made /\ Encrypting(w) => \A q \in DOMAIN s.arch.e : s.arch.e[q].k = "plain" => Last(q) \notin {"package.mo", "a.mo", "x.mo"}
OldMetadata == Made => <<DotLib, "old.txt">> \notin DOMAIN s.arch.e
Openable == Made /\ Encrypting(w) => \E n \in LveNames : <<DotLib, n>> \in DOMAIN s.arch.e
OneManifest == Made => s.arch.e[Manifest].k = "manifest"
Listed == Made => {x.path : x \in Executables(w)} = {DotLib \o "/" \o q[2] : q \in {q \in DOMAIN s.arch.e : q[1] = DotLib /\ q[2] \in LveNames}}
Distinct == \A a, b \in DOMAIN Status : Status[a] = Status[b] => a = b
Ends == <>Over
(* the worlds themselves, to be tried on the program *)
Tell == PrintT(ToJson([w |-> [args |-> w.args, dirs |-> w.dirs, lib |-> w.lib, extra |-> w.extra, block |-> w.block, limit |-> w.limit, zipfail |-> w.zipfail, text |-> w.text,
                              src |-> {[p |-> p, f |-> w.src[p]] : p \in DOMAIN w.src}, more |-> {[p |-> p, f |-> w.more[p]] : p \in DOMAIN w.more},
                              lves |-> {[n |-> n, f |-> w.lves[n]] : n \in DOMAIN w.lves}]]))
OneIn(n) == RandomElement(1..n) = 1
Silent == s.stage # "arguments" \/ s.exit >= 0 \/ ~OneIn(40) \/ Tell
=============================================================================
