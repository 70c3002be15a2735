----------------------------- MODULE DuckNumTrace -----------------------------
(* Checks recorded evaluations: one record per operator and operands, with every distinct result seen (operands as
   variables, captured, far down the stack, literals, ...). *)
EXTENDS DuckNum, Json, IOUtils
T == ndJsonDeserialize(IOEnv.DUCK_IN)
VARIABLE i
Verdict(x) ==
  LET w == Op(x.op, Dec(x.a), Dec(x.b))
      rs == [k \in DOMAIN x.r |-> Dec(x.r[k])]
      bad == SelectInSeq(rs, LAMBDA r : IF w.k = "any" THEN r.k \notin {"i", "err"} ELSE r # w) IN
  IF bad # 0 THEN "bad " \o ToString(bad) \o " " \o ToString(w) ELSE IF w.k = "any" THEN "oos" ELSE "ok"
Init == i \in 1..Len(T)
Next == /\ i > 0
        /\ PrintT("@@V " \o T[i].id \o " " \o Verdict(T[i]))
        /\ i' = -i
Spec == Init /\ [][Next]_i
===============================================================================
