------------------------------ MODULE ToolApi ------------------------------
(***************************************************************************)
(* The tool-side library: every call sends one request and turns the        *)
(* answer of the executable into success or an error.                       *)
(*                                                                          *)
(* A call c:  [op, arg (content id of the string argument), len, min, max]  *)
(* The request seen by the executable: m as in Grammar plus arg.            *)
(* The answer a:                                                            *)
(*   fate   "full"  a complete message was sent                             *)
(*          "cut"   the connection ended in the middle of it                *)
(*          "none"  the connection ended without an answer                  *)
(*          "unsent" the call returned without having sent anything          *)
(*   m      the message as in Grammar (dl: bytes of data actually sent)      *)
(*   first  the line and its newline were in the first record               *)
(*   d      content id of its data                                          *)
(* The result r: [ok, err, dom, code, has, low, high]: ok what the call       *)
(* returned, err whether it set an error, has whether the error text carries   *)
(* the data of the answer (or its beginning), low/high whether it says that     *)
(* the version is too low / too high.                                          *)
(***************************************************************************)
EXTENDS Grammar, FiniteSets

Ops == {"version", "lib", "feature", "retfeature", "license", "retlicense", "file"}
WordOf(op) == CASE op = "version" -> "VERSION" [] op = "lib" -> "LIB" [] op = "feature" -> "FEATURE"
                [] op = "retfeature" -> "RETURNFEATURE" [] op = "license" -> "LICENSE"
                [] op = "retlicense" -> "RETURNLICENSE" [] op = "file" -> "FILE"
Positive(op) == CASE op = "version" -> "VERSION" [] op = "file" -> "FILECONT" [] OTHER -> "YES"

TOOL == 2               \* error domain of the tool library
PROTOCOL == 1
NOLICENSE == 3
NOTSIMPLIFIED == 4

(* the one request a call sends *)
RequestOk(c, m) ==
  /\ m.canon
  /\ m.w = WordOf(c.op)
  /\ Len(m.a) = 1 /\ m.a[1].t = "i"
  /\ IF c.op = "version" THEN m.a[1].v = c.max /\ m.dl = 0
     ELSE m.a[1].v = c.len /\ m.dl = c.len /\ m.arg = c.arg

(* The executable takes a message from one record: a call whose request does not
   fit in one may be refused, then with an error, nothing sent and the session as
   it was. *)
RecordMax == 16384
DigitsOf(n) == IF n < 10 THEN 1 ELSE IF n < 100 THEN 2 ELSE IF n < 1000 THEN 3 ELSE IF n < 10000 THEN 4 ELSE 5
TooLong(c) == c.op # "version" /\ Len(WordOf(c.op)) + 1 + DigitsOf(c.len) + 1 + c.len > RecordMax

Ok == [ok |-> TRUE, kind |-> "success"]
Fail(kind) == [ok |-> FALSE, kind |-> kind]

(* kinds of results a call may have for an answer *)
Verdicts(c, a) ==
  IF a.fate = "unsent" THEN (IF TooLong(c) THEN {Fail("toolong")} ELSE {})
  ELSE IF a.fate # "full" THEN {Fail("lost")}
  ELSE LET one(g) ==
             IF ~g.good THEN Fail("garbled")
             ELSE IF g.c = "ERROR" THEN Fail("error")
             ELSE IF g.c = "NO" /\ c.op \in {"feature", "license"} THEN Fail("refused")
             ELSE IF g.c = "NOTSIMPLE" /\ c.op = "license" THEN Fail("notsimple")
             ELSE IF g.c # Positive(c.op) THEN Fail("unexpected")
             ELSE IF c.op = "version" /\ g.n < c.min THEN Fail("low")
             ELSE IF c.op = "version" /\ g.n > c.max THEN Fail("high")
             ELSE Ok
       IN {one(g) : g \in Parse(a.m)} \cup (IF a.first THEN {} ELSE {Fail("garbled")})

(* does an observed result fit a kind *)
Fits(v, r) ==
  /\ r.ok = v.ok
  /\ r.err = ~v.ok
  /\ CASE v.kind = "success" -> TRUE
       [] v.kind = "error" -> r.dom = TOOL /\ r.code = PROTOCOL /\ r.has
       [] v.kind = "refused" -> r.dom = TOOL /\ r.code = NOLICENSE /\ r.has
       [] v.kind = "notsimple" -> r.dom = TOOL /\ r.code = NOTSIMPLIFIED
       [] v.kind = "low" -> r.dom = TOOL /\ r.code = PROTOCOL /\ r.low
       [] v.kind = "high" -> r.dom = TOOL /\ r.code = PROTOCOL /\ r.high
       [] OTHER -> ~(r.dom = TOOL /\ r.code \in {NOLICENSE, NOTSIMPLIFIED}) /\ ~r.low /\ ~r.high
Allowed(c, a, r) == \E v \in Verdicts(c, a) : Fits(v, r)

(* Reading a delivered file: handle h = [d, size, off]; a read of n bytes gives
   the next min(n, rest) bytes, or the end mark when nothing is left. *)
ReadLen(h, n) == IF h.size - h.off < n THEN h.size - h.off ELSE n
AtEnd(h) == h.off >= h.size
=============================================================================
