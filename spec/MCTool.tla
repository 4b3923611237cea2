------------------------------- MODULE MCTool ------------------------------
(***************************************************************************)
(* Exhaustive exploration of ToolApi: every call with every kind of answer   *)
(* in every state of the session and of a delivered file, reads of any size.  *)
(* The properties are over what the caller has observed (h).                  *)
(***************************************************************************)
EXTENDS ToolApi, TLC, Json
CONSTANTS EmitGraph

I(v) == [t |-> "i", v |-> v]
M(w, a, dl) == [w |-> w, a |-> a, dl |-> dl, canon |-> TRUE]
(* answers: n |-> [fate, m, first, d] *)
Full(m) == [fate |-> "full", m |-> m, first |-> TRUE, d |-> "D"]
Lost(f, m) == [fate |-> f, m |-> m, first |-> TRUE, d |-> "D"]
None == M("", <<>>, 0)
Answers ==
  [yes |-> Full(M("YES", <<>>, 0)), no |-> Full(M("NO", <<I(3)>>, 3)), no0 |-> Full(M("NO", <<I(0)>>, 0)),
   notsimple |-> Full(M("NOTSIMPLE", <<>>, 0)),
   error |-> Full(M("ERROR", <<I(5), I(3)>>, 3)), error0 |-> Full(M("ERROR", <<I(5), I(0)>>, 0)),
   v0 |-> Full(M("VERSION", <<I(0)>>, 0)), v1 |-> Full(M("VERSION", <<I(1)>>, 0)),
   v2 |-> Full(M("VERSION", <<I(2)>>, 0)), v9 |-> Full(M("VERSION", <<I(9)>>, 0)),
   file0 |-> Full(M("FILECONT", <<I(0)>>, 0)), file1 |-> Full(M("FILECONT", <<I(1)>>, 1)), file3 |-> Full(M("FILECONT", <<I(3)>>, 3)),
   tlist |-> Full(M("TOOLLIST", <<I(2)>>, 2)), request |-> Full(M("LIB", <<I(2)>>, 2)), tools |-> Full(M("TOOLS", <<>>, 0)),
   unknown |-> Full(M("FOO", <<>>, 0)), empty |-> Full(None), few |-> Full(M("FILECONT", <<>>, 0)),
   many |-> Full(M("YES", <<I(1)>>, 0)), text |-> Full(M("VERSION", <<[t |-> "x", v |-> 0]>>, 0)),
   negative |-> Full(M("FILECONT", <<I(-1)>>, 1)), over |-> Full(M("FILECONT", <<I(1)>>, 3)),
   cuthead |-> Lost("cut", None), cutdata |-> Lost("cut", M("FILECONT", <<I(3)>>, 1)), gone |-> Lost("none", None)]
Calls ==
  [ver |-> [op |-> "version", arg |-> "", len |-> 0, min |-> 1, max |-> 2], lib |-> [op |-> "lib", arg |-> "a", len |-> 1, min |-> 0, max |-> 0],
   feature |-> [op |-> "feature", arg |-> "a", len |-> 1, min |-> 0, max |-> 0], retfeature |-> [op |-> "retfeature", arg |-> "a", len |-> 1, min |-> 0, max |-> 0],
   license |-> [op |-> "license", arg |-> "a", len |-> 1, min |-> 0, max |-> 0], retlicense |-> [op |-> "retlicense", arg |-> "a", len |-> 1, min |-> 0, max |-> 0],
   file |-> [op |-> "file", arg |-> "a", len |-> 1, min |-> 0, max |-> 0]]

VARIABLES up, f, h, last
vars == <<up, f, h, last>>
Closed == [open |-> FALSE, size |-> 0, off |-> 0]
Init == up = TRUE /\ f = Closed /\ h = [lost |-> FALSE, pieces |-> <<>>, ended |-> FALSE] /\ last = [id |-> "", v |-> Ok, a |-> "", call |-> ""]

Do(c, n) ==
  LET a == IF up THEN Answers[n] ELSE [Answers[n] EXCEPT !.fate = "none"] IN
  \E v \in Verdicts(Calls[c], a) :
    /\ (~up => n = "gone")
    /\ up' = (up /\ a.fate = "full")
    /\ f' = IF c # "file" THEN f ELSE IF v.ok THEN [open |-> TRUE, size |-> a.m.dl, off |-> 0] ELSE Closed
    /\ h' = [lost |-> h.lost \/ a.fate # "full",
             pieces |-> IF c = "file" THEN <<>> ELSE h.pieces, ended |-> IF c = "file" THEN FALSE ELSE h.ended]
    /\ last' = [id |-> "call", v |-> v, a |-> n, call |-> c]

Rd(n) ==
  /\ f.open
  /\ LET g == IF AtEnd(f) THEN 0 ELSE ReadLen(f, n) IN
     /\ f' = [f EXCEPT !.off = @ + g]
     /\ h' = [h EXCEPT !.pieces = @ \o [i \in 1..g |-> f.off + i], !.ended = AtEnd(f)]
     /\ last' = [id |-> "read", v |-> Ok, a |-> ToString(n), call |-> ""]
  /\ UNCHANGED up

Free == f.open /\ f' = Closed /\ UNCHANGED up /\ h' = [h EXCEPT !.pieces = <<>>, !.ended = FALSE]
        /\ last' = [id |-> "ffree", v |-> Ok, a |-> "", call |-> ""]
Next == (\E c \in DOMAIN Calls, n \in DOMAIN Answers : Do(c, n)) \/ (\E n \in {0, 1, 2, 5} : Rd(n)) \/ Free
Spec == Init /\ [][Next]_vars

(* C09: what was read is the beginning of the delivered content, in order, without gaps *)
InOrder == h.pieces = [i \in 1..Len(h.pieces) |-> i] /\ Len(h.pieces) <= f.size
CompleteAtEnd == h.ended => Len(h.pieces) = f.size
(* success means the positive answer *)
NoFalseSuccess == last.id = "call" /\ last.v.ok =>
  last.a \in (CASE last.call = "ver" -> {"v1", "v2"} [] last.call = "file" -> {"file0", "file1", "file3"} [] OTHER -> {"yes"})
(* C10: nothing succeeds after a loss *)
NothingAfterLoss == h.lost /\ last.id = "call" => ~last.v.ok
(* C20: outcomes of a version call are told apart *)
VersionKinds == last.id = "call" /\ last.call = "ver" =>
  CASE last.a = "v0" -> last.v.kind = "low" [] last.a = "v9" -> last.v.kind = "high" [] last.a = "error" -> last.v.kind = "error"
    [] last.a \in {"unknown", "empty", "text"} -> last.v.kind = "garbled" [] last.a \in {"v1", "v2"} -> last.v.ok [] OTHER -> ~last.v.ok
(* a refusal is never confused with anything else *)
RefusalExact == last.id = "call" => (last.v.kind = "refused") = (last.a \in {"no", "no0"} /\ last.call \in {"feature", "license"})
Deterministic == \A c \in DOMAIN Calls, n \in DOMAIN Answers : Cardinality(Verdicts(Calls[c], Answers[n])) = 1

Emit == ~EmitGraph \/ PrintT(ToJson([edge |-> TRUE, x |-> "", from |-> ToString(<<up, f>>), id |-> last'.id \o "|" \o last'.call \o "|" \o last'.a, to |-> ToString(<<up', f'>>)]))
GraphView == <<up, f>>
=============================================================================
