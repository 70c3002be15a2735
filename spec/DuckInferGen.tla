----------------------------- MODULE DuckInferGen ------------------------------
(* Parenthesis inference on every short text over a few declared names: the texts are enumerated token by token, the laws
   of inference are invariants, and every complete text is printed, to be inferred by the real compiler as well. *)
EXTENDS DuckInfer, SequencesExt, FiniteSets, Json, IOUtils
Limit == CHOOSE n \in 1..9 : ToString(n) = IOEnv.DUCK_LEN
\* names of every type, or the forms that declare names
Plainly == IOEnv.DUCK_ALPHABET = "calls"
Words == IF Plainly THEN {"1", "f", "v", "l", "g", "k", "x", "i", "z", "#f"} ELSE {"1", "var", "defun", "lambda", "self", "a", "&rest", "#a"}
Opens == IF Plainly THEN {"(", "#("} ELSE {"("}

Rest(ps, rg, n) == Type_("F", ps, rg, n, "", 0)
Declared == ("f" :> Fn(<<"I", "I">>)) @@ ("v" :> Rest(<<"I">>, "I", 1)) @@ ("l" :> Fn(<<"L", "I">>)) @@ ("x" :> Plain1("L"))
            @@ ("g" :> Rest(<<>>, "L", -1)) @@ ("k" :> Fn(<<>>)) @@ ("i" :> Plain1("I"))

VARIABLES toks, nd, val
vars == <<toks, nd, val>>
\* nd: the nodes; val: the open lists, innermost last, each with its mark and its forms
NodeOf(w) == IF w = "1" THEN [k |-> "int", v |-> 1]
             ELSE IF w \in {"#f", "#a"} THEN [k |-> "id", v |-> (IF w = "#f" THEN "f" ELSE "a"), q |-> TRUE] ELSE [k |-> "id", v |-> w, q |-> FALSE]
ListNode(o) == [k |-> "list", c |-> o.c, q |-> o.q]
Init == toks = <<>> /\ nd = <<[k |-> "list", c |-> <<>>, q |-> FALSE]>> /\ val = << [q |-> FALSE, c |-> <<1>>] >>
Room == Len(toks) + Len(val) <= Limit
More == IF toks = <<>> THEN TRUE ELSE Last(toks) # ""
PutIn(vs, n) == [vs EXCEPT ![Len(vs)].c = Append(@, n)]
Word == \E w \in Words : /\ Room /\ More /\ toks' = Append(toks, w)
                         /\ nd' = Append(nd, NodeOf(w)) /\ val' = PutIn(val, Len(nd) + 1)
Open == \E o \in Opens : /\ More /\ Len(toks) + Len(val) + 1 <= Limit /\ toks' = Append(toks, o) /\ nd' = nd
                         /\ val' = Append(val, [q |-> o = "#(", c |-> <<>>])
Close == /\ More /\ Len(val) > 1 /\ toks' = Append(toks, ")")
         /\ nd' = Append(nd, ListNode(Last(val))) /\ val' = PutIn(Front(val), Len(nd) + 1)
Whole == Len(val) = 1 /\ toks # <<>> /\ More
Say == Whole /\ PrintT("@@T " \o ToJson(toks)) /\ toks' = Append(toks, "") /\ UNCHANGED <<nd, val>>
Next == Word \/ Open \/ Close \/ Say
Spec == Init /\ [][Next]_vars

Start(nodes) == [r |-> "ok", nd |-> nodes, sc |-> <<IF Plainly THEN Declared @@ BaseScope ELSE BaseScope>>]
Program == Append(nd, ListNode(val[1]))
Inferred(nodes, n) == InferForm(Start(nodes), n, TRUE)

\* a tree as tokens, without marks
RECURSIVE Tokens(_, _), Leaves(_, _)
Tokens(nodes, n) == LET x == nodes[n] IN
  CASE x.k = "int" -> <<"1">> [] x.k = "id" -> <<x.v>> [] OTHER -> <<"(">> \o FlattenSeq([i \in DOMAIN x.c |-> Tokens(nodes, x.c[i])]) \o <<")">>
Leaves(nodes, n) == SelectSeq(Tokens(nodes, n), LAMBDA t : ~(t \in {"(", ")"}))
\* tokens as nodes
RECURSIVE Grow(_, _, _)
Grow(ts, nodes, vs) ==
  IF ts = <<>> THEN [nd |-> nodes, n |-> vs[1].c[1]]
  ELSE CASE Head(ts) = "(" -> Grow(Tail(ts), nodes, Append(vs, [q |-> FALSE, c |-> <<>>]))
         [] Head(ts) = ")" -> Grow(Tail(ts), Append(nodes, ListNode(Last(vs))), PutIn(Front(vs), Len(nodes) + 1))
         [] OTHER -> Grow(Tail(ts), Append(nodes, NodeOf(Head(ts))), PutIn(vs, Len(nodes) + 1))
Tree(ts) == Grow(ts, <<>>, << [q |-> FALSE, c |-> <<>>] >>)

RECURSIVE Subsequence(_, _)
Subsequence(a, b) == IF a = <<>> THEN TRUE ELSE IF b = <<>> THEN FALSE
                     ELSE IF a[1] = b[1] THEN Subsequence(Tail(a), Tail(b)) ELSE Subsequence(a, Tail(b))

R == Inferred(Program, Len(Program))
Marked == \E i \in DOMAIN toks : toks[i] \in {"#(", "#f", "#a"}

\* inference adds parentheses, and does nothing else
OnlyParentheses == Whole => LET a == R IN a.st.r = "ok" =>
  /\ Leaves(a.st.nd, a.n) = Leaves(Program, Len(Program))
  /\ Subsequence(Tokens(Program, Len(Program)), Tokens(a.st.nd, a.n))
\* it is done once
Idempotent == Whole /\ ~Marked => LET a == R IN a.st.r = "ok" =>
  LET ts == Tokens(a.st.nd, a.n)
      t == Tree(ts)
      b == Inferred(t.nd, t.n)
  IN b.st.r = "ok" /\ Tokens(b.st.nd, b.n) = ts
\* what a # protects stays as it is
Protected == Whole => LET p == Append(nd, [k |-> "list", c |-> val[1].c, q |-> TRUE])
                          a == Inferred(p, Len(p))
                      IN a.st.r = "ok" /\ Tokens(a.st.nd, a.n) = Tokens(p, Len(p))
\* parentheses of calls that take as many arguments as inference would: all the ways to leave them out
Default(h, n) == LET t == Declared[h] IN t.s = "F" /\ n = Len(t.ps) + (IF t.rg = "" THEN 0 ELSE t.rn)
LooksInto(h, k) == LET t == Declared[h] IN IF k <= Len(t.ps) THEN t.ps[k] = "I" ELSE t.rg = "I"
Calls(x, nodes) == x.c # <<>> /\ nodes[x.c[1]].k = "id" /\ nodes[x.c[1]].v \in DOMAIN Declared /\ Declared[nodes[x.c[1]].v].s = "F"
RECURSIVE Erasures(_, _, _), Each(_, _, _, _)
Erasures(nodes, n, arg) ==
  LET x == nodes[n] IN
  IF x.k # "list" THEN {Tokens(nodes, n)}
  ELSE IF Calls(x, nodes) THEN
         LET h == nodes[x.c[1]].v
             in == Each(nodes, x.c, 2, h)
         IN {<<"(", h>> \o s \o <<")">> : s \in in} \cup (IF arg /\ Default(h, Len(x.c) - 1) THEN {<<h>> \o s : s \in in} ELSE {})
       ELSE {<<"(">> \o s \o <<")">> : s \in Each(nodes, x.c, 1, "")}
Each(nodes, c, i, h) ==
  IF i > Len(c) THEN {<<>>}
  ELSE LET here == IF h # "" /\ ~LooksInto(h, i - 1) THEN {Tokens(nodes, c[i])} ELSE Erasures(nodes, c[i], i > 1)
       IN {a \o b : a \in here, b \in Each(nodes, c, i + 1, h)}
Erased == Whole /\ Plainly /\ ~Marked => LET a == R IN a.st.r = "ok" =>
  LET ts == Tokens(a.st.nd, a.n) IN
  \A s \in Erasures(a.st.nd, a.n, FALSE) :
    LET t == Tree(s)
        b == Inferred(t.nd, t.n)
    IN b.st.r = "ok" /\ Tokens(b.st.nd, b.n) = ts
\* every call has the arguments its type says
RECURSIVE Typed(_, _)
Typed(nodes, n) ==
  LET x == nodes[n]
      looked(k) == ~Calls(x, nodes) \/ k = 1 \/ LooksInto(nodes[x.c[1]].v, k - 1)
  IN x.k = "list" =>
     /\ Calls(x, nodes) => LET t == Declared[nodes[x.c[1]].v] IN IF t.rg = "" THEN Len(x.c) - 1 = Len(t.ps) ELSE Len(x.c) - 1 >= Len(t.ps)
     /\ \A k \in DOMAIN x.c : looked(k) => Typed(nodes, x.c[k])
     /\ \A k \in 2..Len(x.c) : looked(k) /\ nodes[x.c[k]].k = "id" => nodes[x.c[k]].v \in DOMAIN Declared /\ Declared[nodes[x.c[k]].v].s # "F"
WellTyped == Whole /\ Plainly /\ ~Marked => LET a == R IN a.st.r = "ok" => Typed(a.st.nd, a.n)
================================================================================
