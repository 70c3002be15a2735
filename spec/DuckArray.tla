------------------------------- MODULE DuckArray -------------------------------
(***************************************************************************)
(* The dynamic array (DuckLib/array.c): a sequence of elements.            *)
(*                                                                         *)
(* The state is the sequence s.  Allowed(s, o) is the set of outcomes of   *)
(* operation o in state s: [err, out, s].  The array's capacity, its       *)
(* growth strategy and the allocator are absent: an operation that may     *)
(* have to allocate may fail only where the environment makes allocation   *)
(* fail, and then changes nothing.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences

ArrayInit == <<>>

Rep(v, n) == [j \in 1..n |-> v]

(* o = [o |-> name, f |-> which allocation fails (0: none), a |-> arguments] *)
Normal(s, o) ==
  LET n == Len(s)
      Ok(out, t) == [err |-> "ok", out |-> out, s |-> t]
      Err(e) == [err |-> e, out |-> <<>>, s |-> s] IN
  CASE o.o = "push" -> Ok(<<>>, Append(s, o.a[1]))
    [] o.o = "pushnull" -> Ok(<<>>, Append(s, 0))
    [] o.o = "pushn" -> Ok(<<>>, s \o Tail(o.a))
    [] o.o = "pushnulln" -> Ok(<<>>, s \o Rep(0, o.a[1]))
    [] o.o = "pop" -> IF n = 0 THEN Err("underflow") ELSE Ok(<<s[n]>>, SubSeq(s, 1, n - 1))
    [] o.o = "drop" -> IF n = 0 THEN Err("underflow") ELSE Ok(<<>>, SubSeq(s, 1, n - 1))
    [] o.o = "popn" -> IF n < o.a[1] THEN Err("underflow")
                       ELSE Ok(SubSeq(s, n - o.a[1] + 1, n), SubSeq(s, 1, n - o.a[1]))
    [] o.o = "dropn" -> IF n < o.a[1] THEN Err("underflow") ELSE Ok(<<>>, SubSeq(s, 1, n - o.a[1]))
    [] o.o = "top" -> IF n = 0 THEN Err("underflow") ELSE Ok(<<s[n]>>, s)
    [] o.o = "settop" -> IF n = 0 THEN Err("underflow") ELSE Ok(<<>>, [s EXCEPT ![n] = o.a[1]])
    [] o.o = "get" -> IF o.a[1] < 0 \/ o.a[1] >= n THEN Err("invalid") ELSE Ok(<<s[o.a[1] + 1]>>, s)
    [] o.o = "set" -> IF o.a[1] < 0 \/ o.a[1] >= n THEN Err("invalid") ELSE Ok(<<>>, [s EXCEPT ![o.a[1] + 1] = o.a[2]])
    [] o.o = "clear" -> Ok(<<>>, <<>>)
    [] o.o = "fresh" -> Ok(<<>>, <<>>)

Allocates == {"push", "pushnull", "pushn", "pushnulln"}

ArrayAllowed(s, o, mayFail) ==
  {Normal(s, o)} \cup
  (IF o.o \in Allocates /\ (o.f > 0 \/ mayFail) THEN {[err |-> "oom", out |-> <<>>, s |-> s]} ELSE {})

(* What a session may do next in the small scope explored exhaustively. *)
ArrayOps(s, i) ==
  {[o |-> "push", f |-> f, a |-> <<i + 1>>] : f \in {0, 1}} \cup
  {[o |-> "pushn", f |-> f, a |-> <<k>> \o [j \in 1..k |-> 10 * (i + 1) + j]] : f \in {0, 1}, k \in {0, 2, 3}} \cup
  {[o |-> "pushnull", f |-> 0, a |-> <<>>], [o |-> "pushnulln", f |-> 0, a |-> <<2>>]} \cup
  {[o |-> x, f |-> 0, a |-> <<>>] : x \in {"pop", "drop", "top", "clear"}} \cup
  {[o |-> x, f |-> 0, a |-> <<2>>] : x \in {"popn", "dropn"}} \cup
  {[o |-> "settop", f |-> 0, a |-> <<100 + i>>]} \cup
  {[o |-> "get", f |-> 0, a |-> <<j>>] : j \in {-1, Len(s) - 1, Len(s)}} \cup
  {[o |-> "set", f |-> 0, a |-> <<j, 110 + i>>] : j \in {0, Len(s)}}

(* Properties of the specification itself, over every outcome of every operation in every explored state. *)
ArrayLaws(s, o) ==
  \A r \in ArrayAllowed(s, o, FALSE) :
    /\ (r.err # "ok" => r.s = s /\ r.out = <<>>)
    /\ (o.o \in {"get", "top"} => r.s = s)
    /\ (o.o \in {"pop", "popn"} /\ r.err = "ok" => r.s \o r.out = s)
    /\ (o.o \in Allocates /\ r.err = "ok" => SubSeq(r.s, 1, Len(s)) = s)
    /\ (o.o \in {"set", "settop"} /\ r.err = "ok" =>
          Len(r.s) = Len(s) /\ \A j, k \in 1..Len(s) : j # k => r.s[j] = s[j] \/ r.s[k] = s[k])
================================================================================
