-------------------------------- MODULE DuckSort -------------------------------
(***************************************************************************)
(* The sorts (DuckLib/sort.c) as relations between input and output.       *)
(*                                                                         *)
(* An element is [k |-> key, i |-> identity]; the orders are the weak      *)
(* orders the harness's comparison functions implement.  heapsort sorts    *)
(* the whole array, the quicksorts the range low..high.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Rank(order, k) == CASE order = 0 -> k [] order = 1 -> -k [] order = 2 -> k \div 2 [] order = 3 -> 0

Range(alg, low, high, n) ==
  IF alg = "h" THEN 1..n ELSE IF low < 0 \/ high < 0 THEN {} ELSE (low + 1)..(high + 1)

Count(s, e) == Cardinality({j \in 1..Len(s) : s[j] = e})

SortAllowed(in, alg, order, low, high, out) ==
  LET R == Range(alg, low, high, Len(in)) IN
  /\ Len(out) = Len(in)
  /\ \A j \in (1..Len(in)) \ R : out[j] = in[j]
  /\ \A j \in R : Count(out, out[j]) = Count(in, out[j])
  /\ \A j \in R : (j + 1) \in R => Rank(order, out[j].k) <= Rank(order, out[j + 1].k)
================================================================================
