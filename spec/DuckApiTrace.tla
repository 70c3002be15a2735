----------------------------- MODULE DuckApiTrace -----------------------------
(* Checks recorded histories of the embedding interface: one record per session; every operation with what it reported,
   the destructors that had run and the stack afterwards. *)
EXTENDS DuckApi, Json, IOUtils
T == ndJsonDeserialize(IOEnv.DUCK_IN)
VARIABLES t, k, m
vars == <<t, k, m>>

Slack == 60          \* cells for the functions the harness defines and for what an operation needs on the way

(* c: sequence of <<host object, destructors run>>.  all: unreachable places must have been destroyed. *)
Destroyed(n, c, all) ==
  LET ds == DOMAIN n.made
      cnt == [d \in ds |-> LET i == SelectInSeq(c, LAMBDA y : y[1] = d) IN IF i = 0 THEN 0 ELSE c[i][2]] IN
  IF c = <<>> /\ (~all \/ \A d \in ds : n.made[d] = 0) THEN "ok"
  ELSE IF \E i \in DOMAIN c : c[i][1] \notin ds THEN "destructor of nothing"
  ELSE LET R == Reach(n)
           left == [d \in ds |-> n.made[d] - Places(n, R, d)]
           early == {d \in ds \ n.fuzzy : cnt[d] > left[d]}
           late == {d \in ds \ n.fuzzy : cnt[d] < left[d]}
           gone == {d \in ds \cap n.fuzzy : left[d] = n.made[d] /\ n.made[d] > 0 /\ cnt[d] = 0} IN
       IF early # {} THEN "destroyed too often or too early " \o ToString(early)
       ELSE IF all /\ late # {} THEN "not destroyed " \o ToString(late)
       ELSE IF all /\ gone # {} THEN "not destroyed " \o ToString(gone)
       ELSE "ok"

Judge(o, x, w) ==    \* o operation, x what was recorded, w what is expected
  IF x.r = "oom" THEN
    (IF Cells(m) + Slack + (IF o.op = "pushVector" THEN o.a ELSE 0) < T[t].heap THEN "out of memory too early"
     ELSE LET n == IF o.op = "call" /\ Len(m.stk) > o.a THEN Drop(m, o.a) ELSE m IN
          IF x.stk # Dump(n) THEN "out of memory changed the stack" ELSE "oom")
  ELSE IF w.r = "oos" THEN "oos"
  ELSE IF x.r # w.r THEN "reported " \o x.r \o " not " \o w.r
  ELSE IF w.out # "*" /\ x.out # w.out THEN "gave " \o x.out \o " not " \o w.out
  ELSE IF x.stk # Dump(w.m) THEN "left the stack as " \o ToString(x.stk) \o " not " \o ToString(Dump(w.m))
  ELSE Destroyed(w.m, x.d, o.op = "gc" /\ x.r = "ok")

Say(v, text) == PrintT("@@V " \o T[t].id \o " " \o v \o " " \o ToString(k) \o " " \o text)

Init == t \in 1..Len(T) /\ k = 1 /\ m = Start(T[t].base)
Stop == k' = 0 /\ UNCHANGED <<t, m>>
Next ==
  /\ k > 0
  /\ IF k > Len(T[t].ops) THEN
       /\ IF T[t].end # "ok" THEN Say("bad", "the process ended: " \o T[t].end)
          ELSE LET q == {d \in DOMAIN m.made \ m.fuzzy : ~\E i \in DOMAIN T[t].quit : T[t].quit[i] = <<d, m.made[d]>> /\ m.made[d] # 0}
                   bad == {d \in q : m.made[d] # 0} IN
               IF bad # {} \/ (\E i \in DOMAIN T[t].quit : T[t].quit[i][1] \notin DOMAIN m.made) THEN Say("bad", "after quit, destructors ran " \o ToString(T[t].quit))
               ELSE Say("ok", "")
       /\ Stop
     ELSE LET o == T[t].ops[k].o
              x == T[t].ops[k].x
              w == Do(m, o, x)
              j == Judge(o, x, w) IN
          IF j = "ok" THEN /\ m' = w.m /\ k' = k + 1 /\ UNCHANGED t
          ELSE IF j = "oom" /\ o.op # "call" THEN m' = m /\ k' = k + 1 /\ UNCHANGED t
          ELSE /\ Say(IF j \in {"oos", "oom"} THEN "oos" ELSE "bad", IF j \in {"oos", "oom"} THEN "" ELSE o.op \o " " \o j)
               /\ Stop
Spec == Init /\ [][Next]_vars
===============================================================================
