-------------------------------- MODULE Link -------------------------------
(***************************************************************************)
(* The tool and the executable over two pipes, at the level of records:      *)
(* every answer is a head record with the announced length and some of the    *)
(* data, followed by data records split in any way.  Either side may go away   *)
(* at any moment.  A reader sees the end only when nobody holds the write end;  *)
(* KeepsWriteEnd is the mistake of a tool that keeps a copy of the executable's *)
(* end, IgnoresEnd the mistake of an executable that does not stop at the end.   *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS MaxLen, MaxCalls, KeepsWriteEnd, IgnoresEnd

VARIABLES tool,    \* "idle", "wait" (for an answer), "gone"
          exe,     \* "idle", "busy" (answering), "gone"
          toE,     \* requests under way: call numbers
          toT,     \* records under way: [call, head, want, n]
          calls,   \* calls made so far
          rx,      \* receiver: [want, got], want = -1 before the head; src = calls its data came from
          tx,      \* sender: [want, sent, call]
          res      \* results: TRUE / FALSE per call
vars == <<tool, exe, toE, toT, calls, rx, tx, res>>

NoRx == [want |-> -1, got |-> 0, src |-> {}]
Init == /\ tool = "idle" /\ exe = "idle" /\ toE = <<>> /\ toT = <<>> /\ calls = 0
        /\ rx = NoRx /\ tx = [want |-> 0, sent |-> 0, call |-> 0] /\ res = <<>>

EofAtTool == exe = "gone" /\ ~KeepsWriteEnd
EofAtExe == tool = "gone"

(* the tool *)
Call == /\ tool = "idle" /\ calls < MaxCalls
        /\ tool' = "wait" /\ calls' = calls + 1 /\ rx' = NoRx
        /\ toE' = IF exe = "gone" THEN toE ELSE Append(toE, calls + 1)
        /\ UNCHANGED <<exe, toT, tx, res>>
Return(ok) == tool' = "idle" /\ res' = Append(res, ok) /\ UNCHANGED <<exe, toE, calls, tx>>
Receive ==
  /\ tool = "wait" /\ toT # <<>>
  /\ LET r == Head(toT)
         x == [want |-> IF rx.want = -1 THEN r.want ELSE rx.want, got |-> rx.got + r.n, src |-> rx.src \cup {r.call}]
         bad == (rx.want = -1) # r.head \/ x.got > x.want
     IN /\ toT' = Tail(toT)
        /\ IF bad THEN Return(FALSE) /\ rx' = x
           ELSE IF x.got = x.want THEN Return(TRUE) /\ rx' = x
           ELSE rx' = x /\ UNCHANGED <<tool, exe, toE, calls, tx, res>>
Lost == tool = "wait" /\ toT = <<>> /\ EofAtTool /\ Return(FALSE) /\ UNCHANGED <<toT, rx>>
ToolDies == tool # "gone" /\ tool' = "gone" /\ UNCHANGED <<exe, toE, toT, calls, rx, tx, res>>

(* the executable *)
Take == /\ exe = "idle" /\ toE # <<>>
        /\ \E w \in 0..MaxLen, k \in 0..MaxLen :
             /\ k <= w
             /\ tx' = [want |-> w, sent |-> k, call |-> Head(toE)]
             /\ toT' = IF tool = "gone" THEN toT ELSE Append(toT, [call |-> Head(toE), head |-> TRUE, want |-> w, n |-> k])
             /\ exe' = IF tool = "gone" THEN "gone" ELSE IF k = w THEN "idle" ELSE "busy"
        /\ toE' = Tail(toE)
        /\ UNCHANGED <<tool, calls, rx, res>>
Send == /\ exe = "busy"
        /\ \E k \in 1..(tx.want - tx.sent) :
             /\ tx' = [tx EXCEPT !.sent = @ + k]
             /\ toT' = IF tool = "gone" THEN toT ELSE Append(toT, [call |-> tx.call, head |-> FALSE, want |-> tx.want, n |-> k])
             /\ exe' = IF tool = "gone" THEN "gone" ELSE IF tx'.sent = tx.want THEN "idle" ELSE "busy"
        /\ UNCHANGED <<tool, toE, calls, rx, res>>
Leave == exe = "idle" /\ toE = <<>> /\ EofAtExe /\ ~IgnoresEnd /\ exe' = "gone" /\ UNCHANGED <<tool, toE, toT, calls, rx, tx, res>>
ExeDies == exe # "gone" /\ exe' = "gone" /\ UNCHANGED <<tool, toE, toT, calls, rx, tx, res>>

Next == Call \/ Receive \/ Lost \/ ToolDies \/ Take \/ Send \/ Leave \/ ExeDies
Spec == Init /\ [][Next]_vars /\ WF_vars(Receive) /\ WF_vars(Lost) /\ WF_vars(Take) /\ WF_vars(Send) /\ WF_vars(Leave)

(* C09: one answer, complete, of this call only *)
Exact == tool = "idle" /\ res # <<>> /\ res[Len(res)] => rx.got = rx.want /\ rx.src = {calls}
(* without a loss every call succeeds *)
Works == exe # "gone" => \A i \in 1..Len(res) : res[i]
(* C10 *)
EveryCallReturns == (tool = "wait") ~> (tool # "wait")
ExeFollows == (tool = "gone") ~> (exe = "gone")
=============================================================================
