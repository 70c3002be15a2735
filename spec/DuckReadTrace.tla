----------------------------- MODULE DuckReadTrace ----------------------------
(* Checks what the real reader made of recorded texts: obs is what it read from the text alone, from the same text with
   other bytes in memory behind it, and the value of the program that quotes it. *)
EXTENDS DuckRead, Json, IOUtils
T == ndJsonDeserialize(IOEnv.DUCK_IN)
VARIABLE i
Same(w, o) == w \in {"oos", "closed"} \/ w = o
Verdict(x) ==
  LET w == Read(x.t)
      q == ReadQuoted(x.t)
      want == <<w, w, q>>
      bad == SelectInSeq([k \in 1..3 |-> k], LAMBDA k : ~Same(want[k], x.obs[k]) \/ x.obs[k] = "crash") IN
  IF bad # 0 THEN "bad " \o ToString(bad) \o " " \o want[bad]
  ELSE IF x.obs[1] # x.obs[2] THEN "bad 2 " \o x.obs[1]
  ELSE IF w = "oos" THEN "oos" ELSE "ok"
Init == i \in 1..Len(T)
Next == /\ i > 0
        /\ PrintT("@@V " \o T[i].id \o " " \o Verdict(T[i]))
        /\ i' = -i
Spec == Init /\ [][Next]_i
===============================================================================
