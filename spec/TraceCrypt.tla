----------------------------- MODULE TraceCrypt -----------------------------
(***************************************************************************)
(* Recorded runs of encrypt_file and decrypt_file against CryptPrograms.      *)
(*                                                                          *)
(* Every event tells which files of the tree differ after it from before       *)
(* (chg: path and an identity of the new bytes, "" when the file is gone);      *)
(* of an encryption whether the result has a piece of the source in it (leak)  *)
(* or a block in common with an earlier encryption (shared).                   *)
(***************************************************************************)
EXTENDS CryptPrograms, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.VF_TRACES)
VARIABLES tid, l, fs
vars == <<tid, l, fs>>
Range(f) == {f[i] : i \in DOMAIN f}
Ev == Traces[tid].ev[l]

Dir == [k |-> "dir", v |-> "", key |-> "", mask |-> "", ok |-> FALSE, home |-> <<>>, by |-> "", raw |-> ""]
With(f, p, e) == [q \in DOMAIN f \cup {p} |-> IF q = p THEN e ELSE f[q]]
Without(f, p) == [q \in DOMAIN f \ {p} |-> f[q]]
File(id) == Plain(id) @@ [raw |-> id]

Init == tid \in DOMAIN Traces /\ l = 1 /\ fs = [p \in {} |-> Dir]
Reject(expected) == /\ PrintT(ToJson([verdict |-> "STUCK", tid |-> tid, l |-> l, expected |-> expected]))
                    /\ l' = 0 /\ UNCHANGED <<tid, fs>>
Done == IF l = Len(Traces[tid].ev) THEN PrintT(ToJson([verdict |-> "ACCEPT", tid |-> tid])) ELSE TRUE
Go(f) == fs' = f /\ l' = l + 1 /\ Done /\ UNCHANGED tid

(* what the surroundings do *)
Put == Go(With(fs, Ev.p, IF Ev.k = "dir" THEN Dir ELSE File(Ev.raw)))
Remove == Go(Without(fs, Ev.p))
Damage == Go(With(fs, Ev.p, [fs[Ev.p] EXCEPT !.ok = FALSE, !.raw = Ev.raw]))
Copy == Go(With(fs, Ev.p, fs[Ev.from]))

(* what the programs do *)
Outs == (IF Ev.io THEN {Failed} ELSE {}) \cup   \* io: a file could not be opened, read, written or closed
        CASE Ev.usage -> {Failed}
          [] Ev.lim -> {Failed}
          [] Ev.e = "enc" /\ Ev.inlib -> EncIn(fs, Ev.src, Ev.base, Ev.rel, Ev.fresh, Ev.by)
          [] Ev.e = "enc" -> EncAlone(fs, Ev.src, Ev.out, Ev.fresh, Ev.by)
          [] Ev.e = "dec" -> DecOuts(fs, Ev.base, Ev.rel, Ev.out, Ev.by)
Fine == ~Ev.san /\ ~Ev.hung /\ Ev.exit >= 0
Chg == Range(Ev.chg)
After(o) ==
  IF ~o.ok THEN IF Chg = {} THEN fs ELSE Without(fs, Ev.out)
  ELSE With(fs, Ev.out, o.out @@ [raw |-> IF Chg = {} THEN fs[Ev.out].raw ELSE Ev.chg[1].raw])
Fits(o) ==
  IF ~o.ok THEN Ev.exit > 0 /\ Chg \subseteq {[p |-> Ev.out, raw |-> ""]}
  ELSE /\ Ev.exit = 0
       /\ \A c \in Chg : c.p = Ev.out /\ c.raw # ""
       /\ IF Ev.e = "enc" THEN Chg # {} /\ ~Ev.leak /\ ~Ev.shared
          ELSE LET now == IF Chg = {} THEN EntryAt(fs, Ev.out) ELSE File(Ev.chg[1].raw) IN
               now.k # "none" /\ (o.out.v # "*" => now.raw = o.out.v)
Program == IF Fine /\ \E o \in Outs : Fits(o)
           THEN \E o \in Outs : Fits(o) /\ Go(After(o))
           ELSE Reject(Outs)

Next == /\ l \in 1..Len(Traces[tid].ev)
        /\ CASE Ev.e = "put" -> Put
             [] Ev.e = "remove" -> Remove
             [] Ev.e = "damage" -> Damage
             [] Ev.e = "copy" -> Copy
             [] OTHER -> Program
Spec == Init /\ [][Next]_vars
=============================================================================
