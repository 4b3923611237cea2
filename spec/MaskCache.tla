----------------------------- MODULE MaskCache -----------------------------
(***************************************************************************)
(* How the executable finds the key of a file: it walks up the directories  *)
(* to the nearest package file, decrypts that one the same way, and keeps   *)
(* the masks it has seen.  Here that algorithm (one operator per C function: *)
(* mlle_demask_key, mlle_store_keymask, mlle_cr_decrypt) is checked against  *)
(* the declarative rule of Library.tla, for every placement of package files *)
(* in a small tree, every order of requests, and tampering in between.       *)
(***************************************************************************)
EXTENDS Library, TLC

D0 == <<>>
D1 == <<"d">>
D2 == <<"d", "e">>
D3 == <<"f">>
Dirs == {D0, D1, D2, D3}
FilesOf(d) == {Append(d, "x.moc")}
Paths == UNION {FilesOf(d) \cup {Pkg(d)} : d \in Dirs}

MaskName(d) == IF d = D0 THEN "m:" ELSE IF d = D1 THEN "m:d" ELSE IF d = D2 THEN "m:de" ELSE "m:f"
RECURSIVE NearMask(_, _)
NearMask(pk, d) == IF d \in pk THEN MaskName(d) ELSE IF d = D0 THEN "base" ELSE NearMask(pk, Front(d))
(* the library as the encryption program makes it, pk being the directories with a package file *)
Made(pk) ==
  [p \in {q \in Paths : LastOf(q) = PKG => Front(q) \in pk} |->
     LET d == Front(p) IN
     [k |-> "enc", v |-> ToString(p), ok |-> TRUE, home |-> p,
      mask |-> IF LastOf(p) = PKG THEN MaskName(d) ELSE "",
      key |-> IF LastOf(p) = PKG THEN (IF d = D0 THEN "base" ELSE NearMask(pk, Front(d))) ELSE NearMask(pk, d)]]

VARIABLES pk, fs, cache, soiled, last
vars == <<pk, fs, cache, soiled, last>>
fs0 == Made(pk)

NoMask == "no"
(* mlle_demask_key and mlle_cr_decrypt: results are [ok, mask, cache] and [ok, v, cache] *)
RECURSIVE Demask(_, _, _), Decrypt(_, _, _)
Demask(f, c, p) ==
  IF LastOf(p) = PKG
  THEN IF Len(p) = 1 THEN [ok |-> TRUE, mask |-> "base", cache |-> c]
       ELSE Demask(f, c, Front(p))
  ELSE LET d == Front(p) IN
       IF c[d] # NoMask THEN [ok |-> TRUE, mask |-> c[d], cache |-> c]
       ELSE IF EntryAt(f, Pkg(d)).k # "none"
            THEN LET r == Decrypt(f, c, Pkg(d)) IN
                 [ok |-> r.ok, mask |-> IF r.ok THEN f[Pkg(d)].mask ELSE "", cache |-> r.cache]
            ELSE Demask(f, c, Pkg(d))
Decrypt(f, c, p) ==
  LET k == Demask(f, c, p)
      b == f[p]
      good == k.ok /\ b.k = "enc" /\ b.ok /\ b.key = k.mask
      d == Front(p)
  IN [ok |-> good, v |-> IF good THEN b.v ELSE "",
      cache |-> IF good /\ LastOf(p) = PKG /\ k.cache[d] = NoMask THEN [k.cache EXCEPT ![d] = b.mask] ELSE k.cache]

Init == /\ pk \in SUBSET Dirs
        /\ fs = Made(pk)
        /\ cache = [d \in Dirs |-> NoMask]
        /\ soiled = FALSE
        /\ last = [p |-> <<"none">>, r |-> Err(8), allowed |-> {Err(8)}]

Request(p) ==
  LET r == Decrypt(fs, cache, p)
      s1 == soiled \/ ForeignAbove(fs0, fs, p)
  IN /\ EntryAt(fs, p).k = "enc"
     /\ cache' = r.cache
     /\ soiled' = s1
     /\ last' = [p |-> p, r |-> IF r.ok THEN Cont(r.v) ELSE Err(8), allowed |-> FileReplies(fs0, fs, p, s1)]
     /\ UNCHANGED <<pk, fs>>

(* one file differs from the original at a time *)
Change(p) ==
  /\ UNCHANGED <<pk, cache, soiled>>
  /\ last' = [p |-> <<"none">>, r |-> Err(8), allowed |-> {Err(8)}]
  /\ \/ fs' = [fs0 EXCEPT ![p] = [@ EXCEPT !.ok = FALSE]]
     \/ fs' = [fs0 EXCEPT ![p] = NoEntry]
     \/ \E o \in DOMAIN fs0 : o # p /\ fs' = [fs0 EXCEPT ![p] = fs0[o]]
     \/ fs' = fs0
  /\ fs' # fs

Next == (\E p \in DOMAIN fs : Request(p)) \/ (\E p \in DOMAIN fs0 : Change(p))
Spec == Init /\ [][Next]_vars

Fits == \E a \in last.allowed : a = last.r \/ (a.c = last.r.c /\ a.d = "*")
Refines == Fits
View == <<pk, fs, cache, soiled, Fits>>
(* every file of an untouched library is served whatever was asked before *)
Complete == fs = fs0 /\ ~soiled => \A p \in DOMAIN fs : Decrypt(fs, cache, p).ok
(* cached masks are the right ones *)
CacheRight == ~soiled => \A d \in Dirs : cache[d] # NoMask => d \in pk /\ cache[d] = MaskName(d)
=============================================================================
