------------------------------- MODULE DuckApiGen ------------------------------
(* All short histories of the embedding interface, up to what the stack looks like afterwards: from every stack that can be
   reached, every operation, on every kind of value and stack position.  The histories are printed and replayed on the real
   interface; the laws of the machine are checked on the way. *)
EXTENDS DuckApi, IOUtils
Limit == CHOOSE n \in 1..12 : ToString(n) = IOEnv.DUCK_DEPTH
Height == CHOOSE n \in 1..9 : ToString(n) = IOEnv.DUCK_HEIGHT
Wide == IOEnv.DUCK_WIDE = "1"

o(op, a, b, s) == [op |-> op, a |-> a, b |-> b, s |-> s, bs |-> IF op = "pushString" /\ s # "-" THEN <<65, 255>> ELSE IF op = "pushSymbol" THEN <<98>> ELSE <<>>]
p(op) == o(op, 0, 0, "")
Pushes == <<p("pushNil"), p("pushCons"), o("pushVector", 2, 0, ""), o("pushString", 0, 0, "65.255"), p("pushInteger"),
            o("pushComposite", 25, 0, ""), o("pushGlobal", 0, 0, "f0"), o("pushGlobal", 0, 0, "g0"), p("pushBoolean"),
            o("pushGlobal", 0, 0, "f5"), o("pushVector", 0, 0, ""), o("pushGlobal", 0, 0, "h3"), o("pushSymbol", 3, 0, "98"), o("pushVector", 1, 0, "")>>
Rest1 == <<p("pop"), o("push", 0, 0, ""), o("push", -2, 0, ""), o("push", 2, 0, ""), o("copyFromTop", -2, 0, ""), o("copyFromTop", 1, 0, ""), o("setCar", -2, 0, ""),
           o("setCdr", -2, 0, ""), o("setCdr", -1, 0, ""), o("setElement", 1, -2, ""), o("setElement", 0, 0, ""), o("setElement", -1, -2, ""), o("setElement", 2, -2, ""), p("pushCar"), p("pushCdr"),
           o("pushElement", 0, 0, ""), o("pushElement", 1, 0, ""), o("pushElement", 2, 0, ""), o("pushElement", -1, 0, ""), o("setCompositeValue", -2, 0, ""),
           o("setCompositeFunction", -2, 0, ""), o("setCompositeFunction", -1, 0, ""), p("pushCompositeValue"), p("pushCompositeFunction"),
           o("call", 0, 0, ""), o("call", 1, 1, ""), o("call", 2, 2, ""), o("call", 1, 2, ""), o("setGlobal", 0, 0, "g0"), o("setInteger", 0, 0, "7"), o("setBoolean", 1, 0, ""),
           o("setFloat", 0, 0, "3ff8000000000000"), o("popSeveral", 2, 0, ""), p("popAll"), p("softReset")>>
Asks == <<p("length"), p("isEmpty"), p("isNil"), p("isCons"), p("isList"), p("isVector"), p("isString"), p("isComposite"), p("isClosure"), p("isInteger"), p("isBoolean"),
          p("isFloat"), p("isSymbol"), p("isType"), p("isUser"), p("isNone"), p("typeOf"), p("copyBoolean"), p("copySignedInteger"), p("copyUnsignedInteger"), p("copyFloat"),
          p("copyString"), p("copySymbolName"), p("copySymbolId"), p("copyType"), p("copyCompositeType"), p("copyClosureName"), p("closureBytecode"),
          p("copyClosureArity"), p("copyClosureIsVariadic"), p("stackLength"), p("gc"), o("push", 7, 0, ""), o("push", -7, 0, ""), o("popSeveral", 9, 0, ""),
          o("copyFromTop", 9, 0, ""), o("copyFromTop", -9, 0, ""), o("setCar", 8, 0, ""), o("setCdr", -9, 0, ""), o("setElement", 0, 9, ""),
          o("setCompositeValue", 9, 0, ""), o("setCompositeFunction", -9, 0, ""), o("pushGlobal", 0, 0, "g9"), o("call", 9, 9, "")>>
Ops == IF Wide THEN Pushes \o Rest1 ELSE SubSeq(Pushes, 1, 8) \o Rest1
X == [nt |-> 0, neg |-> FALSE, r |-> "ok"]

VARIABLES m, hist
vars == <<m, hist>>
Look(n) == <<Dump(n), Walk(n, <<n.glob["g0"]>> \o n.stk, <<>>, <<>>).toks>>
View == Look(m)
Text(h) == ToString([i \in DOMAIN h |-> h[i].op \o " " \o ToString(h[i].a) \o " " \o ToString(h[i].b) \o " " \o h[i].s])
Same(r, n) == Look(r.m) = Look(n)

Init == m = Start(20) /\ hist = <<>>
Next ==
  /\ LET quiet == SelectSeq(Ops, LAMBDA y : LET r == Do(m, y, X) IN r.r # "oos" /\ Same(r, m)) IN
     PrintT("@@H " \o Text(hist \o Asks \o quiet))
  /\ \E i \in DOMAIN Ops :
       LET r == Do(m, Ops[i], X) IN
       /\ r.r # "oos" /\ ~Same(r, m)
       /\ Len(r.m.stk) <= Height
       /\ PrintT("@@H " \o Text(Append(hist, Ops[i])))
       /\ m' = r.m /\ hist' = Append(hist, Ops[i])
Spec == Init /\ [][Next]_vars
Short == Len(hist) < Limit

(* laws *)
AllOps == Ops \o Asks
RefusedUnchanged == \A i \in DOMAIN AllOps : LET r == Do(m, AllOps[i], X) IN r.r = "err" /\ AllOps[i].op # "call" => r.m = m
FailedCallTakesArguments == \A i \in DOMAIN AllOps : LET r == Do(m, AllOps[i], X) IN
                               AllOps[i].op = "call" /\ r.r = "err" => r.m.stk \in {m.stk, SubSeq(m.stk, 1, Len(m.stk) - AllOps[i].a)}
Below(n) == SubSeq(m.stk, 1, Len(m.stk) - n)
PushOps == {"push", "pushNil", "pushCons", "pushVector", "pushString", "pushInteger", "pushComposite", "pushGlobal", "pushBoolean", "pushSymbol",
            "pushCar", "pushCdr", "pushElement", "pushCompositeValue", "pushCompositeFunction"}
PushesOnTop == \A i \in DOMAIN AllOps : LET r == Do(m, AllOps[i], X) IN
                 (r.r = "ok" /\ AllOps[i].op \in PushOps) => Len(r.m.stk) = Len(m.stk) + 1 /\ SubSeq(r.m.stk, 1, Len(m.stk)) = m.stk
AsksChangeNothing == \A i \in DOMAIN Asks : LET r == Do(m, Asks[i], X) IN Asks[i].op # "call" => r.m = m
GoodRefs == \A q \in Reach(m) : q \in DOMAIN m.heap
\* exactly one of the type questions is answered yes
OneType == m.stk # <<>> => Cardinality({q \in {"isBoolean", "isInteger", "isFloat", "isString", "isSymbol", "isType", "isComposite", "isList", "isVector", "isClosure", "isUser"} :
                                       Do(m, p(q), X).out = "true"}) = (IF Top(m).k = "h" THEN 0 ELSE 1)
(* length counts exactly the elements there are *)
LengthIsElements == m.stk # <<>> =>
  LET l == Do(m, p("length"), X) IN
  l.r = "ok" => \A n \in 0..3 : (Do(m, o("pushElement", n, 0, ""), X).r = "ok") <=> (l.out \in {"i" \o ToString(q) : q \in (n + 1)..40})
===============================================================================
