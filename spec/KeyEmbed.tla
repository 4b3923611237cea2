------------------------------ MODULE KeyEmbed ------------------------------
(* How keys get into the programs.

   At build time a key is turned into C source (a header with macros); at run time the macros build the key in
   memory, it is used, and it is cleared. A header is described by what its macros do: the room they reserve, the
   length they state and the stores they make. An obfuscator may choose any stores, in any order, through any
   intermediate values, as long as the memory ends up the same; here they are the plain ones.

   Builds: every build has one key for library files, made at random or taken from another build's header. A file
   encrypted by a program of one build can be read by a program of another exactly if their keys are the same. *)
EXTENDS Naturals, Sequences, FiniteSets
CR == 13
Kinds == {"TOOL_PUBLIC", "TOOL_PRIVATE", "LVE_PRIVATE"}      \* keys that are text
Random == "random"                                           \* the key of the library files: any bytes
RandomLength == 32

(* the key the program is to have: text keys lose the carriage returns of files made on Windows *)
Without(s, b) == SelectSeq(s, LAMBDA x : x # b)
Key(kind, given) == IF kind = Random THEN given ELSE Without(given, CR)

(* build time *)
Header(kind, given) ==
    LET k == Key(kind, given)
        n == Len(given)
    IN [size |-> n + 1, len |-> Len(k),
        stores |-> [i \in 1..(n + 1) |-> [at |-> i - 1, b |-> IF i <= Len(k) THEN k[i] ELSE 0]]]
(* run time: memory after the stores, whatever it held before *)
RECURSIVE Store(_, _)
Store(mem, st) == IF st = <<>> THEN mem ELSE Store([mem EXCEPT ![Head(st).at] = Head(st).b], Tail(st))
Memory(h, junk) == Store([i \in 0..(h.size - 1) |-> junk], h.stores)
Recovered(h, mem) == [i \in 1..h.len |-> mem[i - 1]]
Cleared(h, mem) == [i \in DOMAIN mem |-> IF i < h.len THEN 0 ELSE mem[i]]

(* The outcome of making a header. a: args right, readable (an empty key cannot be read), writable, random source works *)
MakeOk(a) == a.args /\ a.readable /\ a.writable /\ a.random

(* files between builds *)
CanRead(keyOf, from, to) == keyOf[from] = keyOf[to]
=============================================================================
