------------------------------ MODULE DuckLibTrace -----------------------------
(***************************************************************************)
(* Checks recorded behaviours of DuckLib (array, trie, sorts, allocator)   *)
(* against its specifications: one behaviour per recorded session, one     *)
(* step per recorded operation.  A step that the specification does not    *)
(* allow ends the behaviour with the verdict "bad".                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, DuckArray, DuckTrie, DuckSort, DuckMem

T == ndJsonDeserialize(IOEnv.DUCK_IN)

VARIABLES tr, i, s
vars == <<tr, i, s>>

MemState(x, o) == [size |-> x.p.size, entry |-> x.p.entry, tab |-> o.tab, len |-> o.len,
                   live |-> {[id |-> o.live[j][1], o |-> o.live[j][2], n |-> o.live[j][3]] : j \in 1..Len(o.live)}]

Start(x) == CASE x.kind = "A" -> ArrayInit
              [] x.kind = "T" -> TrieInit(x.p.n, x.p.empty, x.p.null)
              [] x.kind = "O" -> 0
              [] x.kind = "M" -> MemState(x, x.p.obs)

Succ(x, o) ==
  IF o.err = "crash" THEN {}
  ELSE CASE x.kind = "A" -> {r.s : r \in {q \in ArrayAllowed(s, o, x.p.mayFail) :
                                   q.err = o.err /\ q.out = o.out /\ q.s = o.st /\ o.fit}}
         [] x.kind = "T" -> {r.s : r \in {q \in TrieAllowed(s, o, x.p.mayFail) : q.err = o.err /\ q.out = o.out}}
         [] x.kind = "O" -> IF o.err = "ok" /\ SortAllowed(o.in, o.alg, o.order, o.low, o.high, o.out) THEN {0} ELSE {}
         [] x.kind = "M" -> LET t == MemState(x, o) IN IF MemAllowed(s, o, o.err, o.ok, t) THEN {t} ELSE {}

Init == /\ tr \in 1..Len(T) /\ i = 0 /\ s = Start(T[tr])
Next ==
  /\ i >= 0 /\ i < Len(T[tr].ops)
  /\ UNCHANGED tr
  /\ LET o == T[tr].ops[i + 1]
         S == Succ(T[tr], o) IN
     IF S = {} THEN /\ i' = -(i + 1) /\ UNCHANGED s
                    /\ PrintT("@@V " \o T[tr].id \o " bad " \o ToString(i + 1))
     ELSE /\ i' = i + 1 /\ s' \in S
          /\ (i + 1 = Len(T[tr].ops) => PrintT("@@V " \o T[tr].id \o " ok " \o ToString(i + 1)))
Spec == Init /\ [][Next]_vars
================================================================================
