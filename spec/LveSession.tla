----------------------------- MODULE LveSession -----------------------------
(***************************************************************************)
(* One session of a licensing executable with a tool.                      *)
(*                                                                          *)
(* The specification is written as a function: Respond(x, s, fs0, fs, m) is *)
(* the set of outcomes [r, lm, s] a request m may have in session state s:   *)
(* the one reply, the calls made to the license manager, and the next state. *)
(* MCLve explores it exhaustively, TraceLve checks recorded sessions of the  *)
(* real executable against it, LveGraph derives sessions to run from it.     *)
(*                                                                          *)
(* x: configuration of executable, peer and license manager                 *)
(*   keys    tool keys built into the executable                            *)
(*   peer    the key the peer proved to have ("none": no certificate,        *)
(*           "unsupported": a certificate that is not an RSA one)            *)
(*   global  the library-wide feature the executable requires, or ""         *)
(*   grant   features the manager grants ("*" in it: all)                    *)
(*   infail  features whose return fails                                    *)
(*   sfx     what the manager's messages end in                              *)
(*   newfail how many times setting up the manager fails                     *)
(* s: session state                                                         *)
(***************************************************************************)
EXTENDS Library, Grammar

OldestVersion == 1       \* oldest protocol version the executable supports
OwnVersion == 1          \* the version it offers
ToolsReply == 4          \* what it answers to TOOLS (the tool list is not implemented)

Trusted(x) == x.peer \in x.keys
Has(set, f) == f \in set \/ "*" \in set

InitSession ==
  [phase |-> "VERSION", lib |-> "", libt |-> "", libok |-> FALSE,
   blocked |-> FALSE,      \* library-wide license was refused
   up |-> FALSE,           \* license manager has been set up
   news |-> 0,             \* failed attempts to set it up
   soiled |-> FALSE]       \* a foreign package file has been used

Yes == [c |-> "YES", n |-> 0, d |-> ""]
NotSimple == [c |-> "NOTSIMPLE", n |-> 0, d |-> ""]
Version(n) == [c |-> "VERSION", n |-> n, d |-> ""]
ErrMsg(n, t) == [c |-> "ERROR", n |-> n, d |-> t]
No(t) == [c |-> "NO", n |-> 0, d |-> t]

MsgUnavailable(x) == "vf: manager unavailable" \o x.sfx
(* x.own: the license manager that comes with the repository, whose wording is its own affair *)
MsgRefused(x) == IF "own" \in DOMAIN x /\ x.own THEN "*" ELSE "vf: feature refused" \o x.sfx
MsgReturn(x) == "vf: return failed" \o x.sfx

Call(op, arg) == [op |-> op, h |-> 1, arg |-> arg, t |-> TRUE]
NewFail(arg) == [op |-> "newfail", h |-> 0, arg |-> arg, t |-> TRUE]

Out(r, lm, s) == [r |-> r, lm |-> lm, s |-> s]
Same(r, s) == {Out(r, <<>>, s)}
Refuse(s) == Same(Err(1), s)

(* Setting up the license manager when it is needed and not there yet: the set
   of [ok, lm, s].  It gets the library path as named, or without trailing
   separators. *)
SetUp(x, s) ==
  IF s.up THEN {[ok |-> TRUE, lm |-> <<>>, s |-> s]}
  ELSE IF s.news < x.newfail
       THEN {[ok |-> FALSE, lm |-> <<NewFail(p)>>, s |-> [s EXCEPT !.news = @ + 1]] : p \in {s.lib, s.libt}}
       ELSE {[ok |-> TRUE, lm |-> <<Call("new", p)>>, s |-> [s EXCEPT !.up = TRUE]] : p \in {s.lib, s.libt}}

Feature(x, s, f) ==
  {IF ~u.ok THEN Out(ErrMsg(7, MsgUnavailable(x)), u.lm, u.s)
   ELSE Out(IF Has(x.grant, f) THEN Yes ELSE No(MsgRefused(x)), Append(u.lm, Call("out", f)), u.s)
   : u \in SetUp(x, s)}

ReturnFeature(x, s, f) ==
  {IF ~u.ok THEN Out(ErrMsg(7, MsgUnavailable(x)), u.lm, u.s)
   ELSE Out(IF Has(x.infail, f) THEN ErrMsg(7, MsgReturn(x)) ELSE Yes, Append(u.lm, Call("in", f)), u.s)
   : u \in SetUp(x, s)}

(* Naming the library. *)
NameLib(x, s, m) ==
  IF m.dl = 0 THEN Same(Err(4), s)
  ELSE LET s1 == [s EXCEPT !.phase = "LICENSE", !.lib = m.arg, !.libt = m.trim, !.libok = m.libok] IN
       IF x.global = "" \/ ~Trusted(x) THEN Same(Yes, s1)
       ELSE {IF ~u.ok THEN Out(ErrMsg(7, MsgUnavailable(x)), u.lm, [u.s EXCEPT !.blocked = TRUE])
             ELSE LET lm == Append(u.lm, Call("out", x.global)) IN
                  IF Has(x.grant, x.global) THEN Out(Yes, lm, u.s)
                  ELSE Out(ErrMsg(7, MsgRefused(x)), lm, [u.s EXCEPT !.blocked = TRUE])
             : u \in SetUp(x, s1)}

(* Delivering a file.  m.path: components of the requested path split at "/",
   m.seps: split at "/" and "\"; m.odd: the path has empty or "." components,
   backslashes or zero bytes, for which only safety is promised; m.npath is then
   the path with empty and "." components removed.  m.io: some operation on the
   files of the library failed while the request was worked on: it may be
   answered with an error, and nothing else changes by it. *)
File(x, s, fs0, fs, m) ==
  IF ~Trusted(x) THEN Same(Err(5), s) \cup (IF s.libok THEN {} ELSE Same(Err(4), s))
  ELSE IF s.blocked THEN Same(Err(7), s)
  ELSE IF \E i \in 1..Len(m.seps) : m.seps[i] = ".."
       THEN {Out(Err(n), <<>>, s) : n \in {1, 4, 6, 8}}
  ELSE IF ~s.libok THEN {Out(Err(n), <<>>, s) : n \in {4, 6}}
  ELSE LET foreign == ForeignAbove(fs0, fs, m.npath)
           s1 == [s EXCEPT !.soiled = @ \/ foreign]
           rs == FileReplies(fs0, fs, m.npath, s1.soiled)
       IN {Out(r, <<>>, s1) : r \in rs \cup (IF m.odd \/ m.io THEN {Err(4), Err(6), Err(8)} ELSE {})}

Perform(x, s, fs0, fs, m, g) ==
  CASE s.phase = "VERSION" /\ g.c = "VERSION" ->
         IF g.n < OldestVersion THEN Same(Err(2), s)
         ELSE Same(Version(OwnVersion), [s EXCEPT !.phase = "TOOLS"])
    [] s.phase = "TOOLS" /\ g.c = "TOOLS" -> Same(Version(ToolsReply), [s EXCEPT !.phase = "LIB"])
    [] s.phase \in {"TOOLS", "LIB"} /\ g.c = "LIB" -> NameLib(x, s, m)
    [] s.phase = "LICENSE" /\ g.c = "FEATURE" -> Feature(x, s, m.arg)
    [] s.phase = "LICENSE" /\ g.c = "RETURNFEATURE" -> ReturnFeature(x, s, m.arg)
    [] s.phase = "LICENSE" /\ g.c \in {"LICENSE", "RETURNLICENSE"} -> Same(NotSimple, s)
    [] s.phase = "LICENSE" /\ g.c = "FILE" -> File(x, s, fs0, fs, m)
    [] OTHER -> Refuse(s)

Respond(x, s, fs0, fs, m) ==
  UNION {IF g.good THEN Perform(x, s, fs0, fs, m, g) ELSE Refuse(s) : g \in Parse(m)}

(* License manager calls when the session ends in order. *)
Farewell(s) == IF s.up THEN <<Call("free", "")>> ELSE <<>>
=============================================================================
