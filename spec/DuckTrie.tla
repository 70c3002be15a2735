-------------------------------- MODULE DuckTrie -------------------------------
(***************************************************************************)
(* The symbol trie (DuckLib/trie.c): a finite map from byte strings.       *)
(*                                                                         *)
(* State: s.m, the value of each of the session's keys (s.m[k], Absent if  *)
(* never inserted); keys are numbered, s.empty is the number of the empty  *)
(* key (0: none), whose initial value is the null index.  Nodes, splits    *)
(* and prefixes are absent.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences

Absent == -1

TrieInit(n, empty, nullIndex) == [j \in 1..n |-> IF j = empty THEN nullIndex ELSE Absent]

(* After every insertion the values of all keys are looked up: out = the new state. *)
TrieAllowed(s, o, mayFail) ==
  IF o.o = "quit" THEN {[err |-> "ok", out |-> <<0>>, s |-> s]}          \* everything it allocated is freed
  ELSE LET t == [s EXCEPT ![o.a[1] + 1] = o.a[2]] IN
       {[err |-> "ok", out |-> t, s |-> t]} \cup
       (IF o.f > 0 \/ mayFail THEN {[err |-> "oom", out |-> s, s |-> s]} ELSE {})

TrieOps(s, i) == {[o |-> "ins", f |-> f, a |-> <<k - 1, 10 * i + k>>] : f \in {0, 1, 2, 3}, k \in 1..Len(s)}

TrieLaws(s, o) ==
  \A r \in TrieAllowed(s, o, FALSE) :
    \A k \in 1..Len(s) : o.o = "ins" /\ k # o.a[1] + 1 => r.s[k] = s[k]
================================================================================
