------------------------------- MODULE DuckLibGen ------------------------------
(***************************************************************************)
(* Explores the DuckLib specifications in a small scope: every sequence of *)
(* DUCK_DEPTH operations.  Checks their laws in every state, and prints    *)
(* every complete sequence for replay into the real code.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, DuckArray, DuckTrie, DuckSort, DuckMem

Kind == IOEnv.DUCK_KIND
Depth == atoi(IOEnv.DUCK_DEPTH)
NKeys == atoi(IOEnv.DUCK_KEYS)

VARIABLES h, s
vars == <<h, s>>

(* The allocator's placement is not determined: explore which requests are made, not where blocks go. *)
MemAbs(o) == CASE o.o = "malloc" -> s \cup {o.id}
               [] o.o = "realloc" -> s \cup {o.id}
               [] o.o = "free" -> s \ {o.id}

Init == /\ h = <<>>
        /\ s = CASE Kind = "A" -> ArrayInit
                 [] Kind = "T" -> TrieInit(NKeys, 1, -1)
                 [] Kind = "M" -> {}
                 [] Kind = "O" -> 0

Ops == CASE Kind = "A" -> ArrayOps(s, Len(h))
         [] Kind = "T" -> TrieOps(s, Len(h))
         [] Kind = "M" -> {o \in MemOps(s, Len(h) + 1) : o.o = "malloc" \/ o.id \in s}
         [] Kind = "O" -> 0..(NKeys - 1)

Step(o) == CASE Kind = "A" -> {r.s : r \in ArrayAllowed(s, o, FALSE)}
             [] Kind = "T" -> {r.s : r \in TrieAllowed(s, o, FALSE)}
             [] Kind = "M" -> {MemAbs(o)}
             [] Kind = "O" -> {0}

Next == /\ Len(h) < Depth
        /\ \E o \in Ops :
             /\ h' = Append(h, o)
             /\ s' \in Step(o)
             /\ (Len(h) + 1 = Depth => PrintT("@@B " \o ToJson(h')))

Spec == Init /\ [][Next]_vars

Laws == CASE Kind = "A" -> \A o \in Ops : ArrayLaws(s, o)
          [] Kind = "T" -> \A o \in Ops : TrieLaws(s, o)
          [] OTHER -> TRUE
================================================================================
