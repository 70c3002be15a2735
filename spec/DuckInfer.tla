------------------------------- MODULE DuckInfer -------------------------------
(***************************************************************************)
(* Parenthesis inference: what program a text with parentheses left out    *)
(* stands for.                                                             *)
(*                                                                         *)
(* Inference is a function from trees to trees.  Names have declared       *)
(* types: a plain name ("I" or "L"), or a function type that says, for     *)
(* every argument, whether inference looks into it ("I") or takes it as it *)
(* stands ("L"), and how many arguments a variadic function takes when it  *)
(* is called without parentheses.  A name with a function type, met where  *)
(* inference is on, takes as many of the forms to its right as its type    *)
(* says, and becomes a call.  A name with a type, met at the head of a     *)
(* parenthesised form, must take all of the form's arguments.              *)
(*                                                                         *)
(* Nodes are those of DuckSem; id and list nodes have a flag q besides:    *)
(* the form was written with a # (a name that is not to be taken as a      *)
(* call, or a form that is to be left alone).                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

(***************************************************************************)
(* Types                                                                   *)
(***************************************************************************)
(* s: "I", "L", or "F" for a function of arguments ps (each "I", "L", or "N", a nested type, which may be declared but not
   used), then rest arguments of type rg ("" for none), rn of them by default.  sc: the declaration script, one of those
   that come with the language or the node b of one in the program. *)
Type_(sy, ps, rg, rn, sc, b) == [s |-> sy, ps |-> ps, rg |-> rg, rn |-> rn, sc |-> sc, b |-> b]
Plain1(sy) == Type_(sy, <<>>, "", 0, "", 0)
Fn(ps) == Type_("F", ps, "", 0, "", 0)
FnRest(ps, n) == Type_("F", ps, "I", n, "", 0)
Scripted(t, sc) == [t EXCEPT !.sc = sc]

RECURSIVE Is(_)
Is(n) == IF n = 0 THEN <<>> ELSE Append(Is(n - 1), "I")

(* The types of everything the language and the test host define. *)
KnownTypes ==
  [x \in {"nop", "make-type", "infer-and-get-next-argument"} |-> Fn(<<>>)]
  @@ [x \in {"not", "quote", "car", "cdr", "null?", "type-of", "composite-value", "composite-function", "make-string", "length",
             "symbol-string", "symbol-id"} |-> Fn(Is(1))]
  @@ [x \in {"*", "/", "+", "-", "=", "<", ">", "make-vector", "get-vector-element", "cons", "set-car", "set-cdr",
             "set-composite-value", "set-composite-function", "concatenate", "declare-identifier"} |-> Fn(Is(2))]
  @@ [x \in {"if", "set-vector-element", "make-instance", "substring"} |-> Fn(Is(3))]
  @@ [x \in {"funcall", "apply", "while", "when", "unless"} |-> FnRest(Is(1), 1)]
  @@ [x \in {"noscope", "list", "vector"} |-> FnRest(<<>>, 0)]
  @@ [x \in {"comptime", "declaration-scope"} |-> FnRest(<<>>, 1)]
  @@ [x \in {"declare"} |-> FnRest(<<"L", "L">>, 0)]
  @@ [x \in {"setq"} |-> Fn(<<"L", "I">>)]
  @@ [x \in {"var", "global"} |-> Scripted(Fn(<<"L", "I">>), "var")]
  @@ [x \in {"defun", "defmacro"} |-> Scripted(FnRest(<<"L", "L">>, 1), "defun")]
  @@ [x \in {"lambda"} |-> Scripted(FnRest(<<"L">>, 1), "lambda")]
HostTypes == [x \in {"host-gc", "host-fail", "gensym"} |-> Fn(<<>>)] @@ [x \in {"emit", "host-user", "intern"} |-> Fn(Is(1))]
             @@ [x \in {"host-call", "read"} |-> Fn(Is(2))] @@ [x \in {"host-args"} |-> Fn(Is(3))]
BaseScope == [x \in {"__error"} |-> Fn(Is(1))] @@ HostTypes @@ KnownTypes
             @@ [x \in {"__" \o k : k \in DOMAIN KnownTypes} |-> KnownTypes[CHOOSE k \in DOMAIN KnownTypes : "__" \o k = x]]

(***************************************************************************)
(* State: r "ok", "err" (refused) or "oos" (not defined here); nd the      *)
(* nodes; sc the declaration scopes, innermost last                        *)
(***************************************************************************)
NewN(st, x) == [st EXCEPT !.nd = Append(@, x)]
Bad(st) == [st EXCEPT !.r = "err"]
Beyond(st) == [st EXCEPT !.r = "oos"]
PushScope(st) == [st EXCEPT !.sc = Append(@, [x \in {} |-> Plain1("L")])]
PopScope(st) == [st EXCEPT !.sc = SubSeq(@, 1, Len(@) - 1)]
DeclareName(st, name, t) == [st EXCEPT !.sc[Len(st.sc)] = (name :> t) @@ @]

RECURSIVE FindIn(_, _, _)
FindIn(sc, i, name) == IF i = 0 THEN 0 ELSE IF name \in DOMAIN sc[i] THEN i ELSE FindIn(sc, i - 1, name)
Known(st, name) == FindIn(st.sc, Len(st.sc), name) # 0
TypeOfName(st, name) == st.sc[FindIn(st.sc, Len(st.sc), name)][name]

IsId(x) == x.k = "id"
IsList(x) == x.k = "list"
PlainId(x) == x.k = "id" /\ ~x.q
PlainList(x) == x.k = "list" /\ ~x.q

(* The type a form describes, or ok FALSE.  data: the form has been a value, where # no longer shows. *)
NoType == [ok |-> FALSE, t |-> Plain1("L")]
RECURSIVE TypeFrom(_, _, _)
TypeFrom(nd, n, data) ==
  LET x == nd[n] IN
  IF IsId(x) THEN IF x.v \in {"I", "L"} THEN [ok |-> TRUE, t |-> Plain1(x.v)] ELSE NoType
  ELSE IF ~IsList(x) \/ (x.q /\ ~data) THEN NoType
  ELSE LET c == x.c
           len == Len(c)
           rest == {i \in 1..len : IsId(nd[c[i]]) /\ nd[c[i]].v = "&rest"}
           var == len >= 3 /\ (len - 2) \in rest
           np == IF var THEN len - 3 ELSE len
           part(i) == TypeFrom(nd, c[i], data)
           short(p) == IF p.t.s = "F" THEN "N" ELSE p.t.s
       IN IF \E i \in rest : i < len - 1 /\ i # len - 2 THEN NoType
          ELSE IF var /\ nd[c[len - 1]].k # "int" THEN NoType
          ELSE IF \E i \in 1..np : ~part(i).ok THEN NoType
          ELSE IF var /\ ~part(len).ok THEN NoType
          ELSE [ok |-> TRUE, t |-> Type_("F", [i \in 1..np |-> short(part(i))], IF var THEN short(part(len)) ELSE "",
                                         IF var THEN nd[c[len - 1]].v ELSE 0, "", 0)]

AddDecl(st, name, n, data) ==
  LET t == TypeFrom(st.nd, n, data) IN IF ~t.ok THEN Bad(st) ELSE DeclareName(st, name, t.t)

(* Scripts this module can run: sequences and scopes of declarations over the arguments. *)
RECURSIVE Unmarked(_, _)
Unmarked(nd, n) == (nd[n].k \in {"id", "list"} => ~nd[n].q) /\ (IsList(nd[n]) => \A i \in DOMAIN nd[n].c : Unmarked(nd, nd[n].c[i]))
ScriptHead(x, name) == PlainId(x) /\ x.v \in {name, "__" \o name}
RECURSIVE ScriptOK(_, _)
ScriptOK(nd, n) ==
  LET x == nd[n] IN
  IF x.k # "list" THEN PlainId(x)
  ELSE IF x.q THEN FALSE
  ELSE IF x.c = <<>> THEN TRUE
  ELSE LET h == nd[x.c[1]]
           all(a) == \A i \in a..Len(x.c) : ScriptOK(nd, x.c[i])
       IN CASE ScriptHead(h, "infer-and-get-next-argument") -> Len(x.c) = 1
            [] ScriptHead(h, "declare-identifier") -> Len(x.c) = 3 /\ all(2)
            [] ScriptHead(h, "quote") -> Len(x.c) = 2 /\ nd[x.c[2]].k \in {"id", "list"} /\ Unmarked(nd, x.c[2])
            [] ScriptHead(h, "var") -> Len(x.c) = 3 /\ PlainId(nd[x.c[2]]) /\ ScriptOK(nd, x.c[3])
            [] ScriptHead(h, "declaration-scope") -> Len(x.c) >= 2 /\ all(2)
            [] IsList(h) -> ~h.q /\ all(1)
            [] OTHER -> FALSE

(* A form just inferred may be a declaration. *)
Interpret(st, n) ==
  LET x == st.nd[n] IN
  IF st.r # "ok" \/ ~(PlainList(x) /\ Len(x.c) \in {3, 4}) THEN st
  ELSE IF ~(PlainId(st.nd[x.c[1]]) /\ PlainId(st.nd[x.c[2]]) /\ st.nd[x.c[1]].v \in {"declare", "__declare"}) THEN st
  ELSE LET t == TypeFrom(st.nd, x.c[3], FALSE) IN
       IF ~t.ok THEN Bad(st)
       ELSE IF Len(x.c) = 3 THEN DeclareName(st, st.nd[x.c[2]].v, t.t)
       ELSE IF ~ScriptOK(st.nd, x.c[4]) THEN Beyond(st)
       ELSE IF t.t.s # "F" THEN Bad(st)
       ELSE DeclareName(st, st.nd[x.c[2]].v, [t.t EXCEPT !.sc = "script", !.b = x.c[4]])

(***************************************************************************)
(* Inference                                                               *)
(***************************************************************************)
(* Results: [st, n] a node; [st, c, i] the forms c of a list with the position after the form inferred. *)
RECURSIVE InferForm(_, _, _), InferList(_, _, _), InferArg(_, _, _, _, _), InferArgs(_, _, _, _), Collect(_, _), TakeArg(_, _),
          TakeRest(_, _, _), Script(_, _, _, _), ScriptSeq(_, _, _, _), DeclareParams(_, _)

Node(st, x) == LET s1 == NewN(st, x) IN [st |-> s1, n |-> Len(s1.nd)]
Unq(st, n) == IF st.nd[n].q THEN Node(st, [st.nd[n] EXCEPT !.q = FALSE]) ELSE [st |-> st, n |-> n]

InferForm(st, n, inf) ==
  LET x == st.nd[n] IN
  IF IsId(x) THEN Unq(st, n)
  ELSE IF IsList(x) /\ inf /\ x.c # <<>> THEN InferList(st, n, inf)
  ELSE [st |-> st, n |-> n]

InferList(st, n, inf) ==
  LET x == st.nd[n]
      h == st.nd[x.c[1]]
      u == Unq(st, x.c[1])
      c1 == [x.c EXCEPT ![1] = u.n]
      made(a) == Node(a.st, [k |-> "list", c |-> a.c, q |-> FALSE])
  IN IF x.q THEN IF IsId(h) THEN made(InferArgs(u.st, c1, 2, FALSE)) ELSE made(InferArgs(st, x.c, 1, FALSE))
     ELSE IF IsId(h) /\ h.q THEN made(InferArgs(u.st, c1, 2, inf))
     ELSE IF IsId(h) THEN
          IF Known(st, h.v) THEN made(InferArg(st, x.c, 1, TRUE, inf)) ELSE [st |-> Bad(st), n |-> n]
     ELSE LET a == InferArgs(PushScope(st), x.c, 1, inf) IN
          IF a.st.r # "ok" THEN [st |-> a.st, n |-> n] ELSE made([a EXCEPT !.st = PopScope(@)])

InferArgs(st, c, i, inf) ==
  IF st.r # "ok" \/ i > Len(c) THEN [st |-> st, c |-> c, i |-> i]
  ELSE LET a == InferArg(st, c, i, FALSE, inf) IN InferArgs(a.st, a.c, a.i, inf)

(* par: the form at i is the head of c, a parenthesised form. *)
InferArg(st, c, i, par, inf) ==
  IF i > Len(c) THEN [st |-> Bad(st), c |-> c, i |-> i]
  ELSE LET x == st.nd[c[i]] IN
  IF ~PlainId(x) THEN
       LET f == InferForm(st, c[i], inf) IN [st |-> Interpret(f.st, f.n), c |-> [c EXCEPT ![i] = f.n], i |-> i + 1]
  ELSE IF ~inf THEN [st |-> st, c |-> c, i |-> i + 1]
  ELSE IF ~Known(st, x.v) THEN [st |-> Bad(st), c |-> c, i |-> i]
  ELSE LET t == TypeOfName(st, x.v) IN
       IF t.s = "F" THEN
         LET call == Collect([st |-> st, c |-> c, i |-> i + 1, ti |-> 0, new |-> <<c[i]>>, par |-> par, inf |-> inf, v |-> 0], t)
             node == Node(call.st, [k |-> "list", c |-> call.new, q |-> FALSE])
             after == SubSeq(call.c, 1, i - 1) \o <<node.n>> \o SubSeq(call.c, i + Len(call.new), Len(call.c))
         IN IF call.st.r # "ok" THEN [st |-> call.st, c |-> c, i |-> i]
            ELSE IF par THEN [st |-> IF call.i = Len(call.c) + 1 THEN call.st ELSE Bad(call.st), c |-> call.c, i |-> call.i]
            ELSE [st |-> Interpret(node.st, node.n), c |-> after, i |-> i + 1]
       ELSE IF par THEN IF t.s = "L" THEN InferArgs(st, c, 2, inf) ELSE [st |-> Bad(st), c |-> c, i |-> i]
       ELSE [st |-> st, c |-> c, i |-> i + 1]

(* Take the arguments of a call of a function of type t.  a: the forms c and the position i of the next argument, the
   number ti of arguments taken, and the call made so far. *)
Collect(a, t) ==
  IF a.st.r # "ok" THEN a
  ELSE IF a.ti = 0 /\ t.sc # "" /\ a.v = 0 THEN
    LET b == [a EXCEPT !.v = 1] IN
    CASE t.sc = "var" ->
           LET x == TakeArg(b, t)
               nm == x.st.nd[x.v]
           IN Collect(IF x.st.r # "ok" THEN x
                      ELSE IF IsId(nm) THEN [x EXCEPT !.st = DeclareName(x.st, nm.v, Plain1("L"))] ELSE [x EXCEPT !.st = Bad(x.st)], t)
      [] t.sc \in {"defun", "lambda"} ->
           LET f == IF t.sc = "defun" THEN TakeArg(b, t) ELSE b
               p == IF f.st.r # "ok" THEN f ELSE TakeArg(f, t)
               pc == p.st.nd[p.v]
               ids == [k \in 1..Len(pc.c) |-> p.st.nd[pc.c[k]]]
               n == Len(ids)
               ft == Type_("F", Is(IF n >= 2 /\ ids[n - 1].v = "&rest" THEN n - 2 ELSE n),
                           IF n >= 2 /\ ids[n - 1].v = "&rest" THEN "I" ELSE "", 0, "", 0)
               in == DeclareName(DeclareParams(PushScope(p.st), ids), "self", ft)
               bd == TakeArg([p EXCEPT !.st = in], t)
               fn == bd.st.nd[f.v]
               out == [bd EXCEPT !.st = PopScope(bd.st)]
           IN IF p.st.r # "ok" THEN p
              ELSE IF ~IsList(pc) \/ \E k \in 1..n : ~IsId(ids[k]) THEN [p EXCEPT !.st = Bad(@)]
              ELSE IF \E k \in 1..n : ids[k].v = "&rest" /\ k # n - 1 THEN [p EXCEPT !.st = Bad(@)]
              ELSE IF bd.st.r # "ok" THEN bd
              ELSE IF t.sc = "lambda" THEN Collect(out, t)
              ELSE IF ~IsId(fn) THEN [p EXCEPT !.st = Bad(@)]
              ELSE Collect([out EXCEPT !.st = DeclareName(out.st, fn.v, ft)], t)
      [] OTHER ->
           LET r == Script(b, t, t.b, [x \in {} |-> 0]) IN Collect(r.a, t)
  ELSE IF a.ti > Len(t.ps) THEN a
  ELSE Collect(TakeArg(a, t), t)

DeclareParams(st, ids) ==
  IF ids = <<>> THEN st
  ELSE DeclareParams(IF Head(ids).v = "&rest" THEN st ELSE DeclareName(st, Head(ids).v, Plain1("L")), Tail(ids))

(* One argument (or all the rest arguments); v is then the node of what was taken. *)
TakeArg(a, t) ==
  IF a.ti > Len(t.ps) THEN [a EXCEPT !.st = Bad(@)]
  ELSE IF a.ti < Len(t.ps) THEN
    IF a.i > Len(a.c) \/ t.ps[a.ti + 1] = "N" THEN [a EXCEPT !.st = Bad(@)]
    ELSE LET b == InferArg(a.st, a.c, a.i, FALSE, a.inf /\ t.ps[a.ti + 1] = "I") IN
         IF b.st.r # "ok" THEN [a EXCEPT !.st = b.st]
         ELSE [a EXCEPT !.st = b.st, !.c = b.c, !.i = b.i, !.ti = @ + 1, !.v = b.c[b.i - 1],
                        !.new = IF a.par THEN @ ELSE Append(@, b.c[a.i])]
  ELSE IF t.rg = "" THEN [a EXCEPT !.ti = @ + 1, !.v = a.c[a.i - 1]]
  ELSE IF ~a.par /\ t.rn < 0 THEN [a EXCEPT !.st = Bad(@)]
  ELSE LET b == TakeRest(a, t, 0)
           nd == Node(b.st, [k |-> "list", c |-> SubSeq(b.c, a.i, b.i - 1), q |-> FALSE])
       IN IF b.st.r # "ok" THEN b ELSE [b EXCEPT !.st = nd.st, !.ti = @ + 1, !.v = nd.n]

TakeRest(a, t, k) ==
  IF a.st.r # "ok" \/ (IF a.par THEN a.i > Len(a.c) ELSE k >= t.rn) THEN a
  ELSE IF t.rg = "N" THEN [a EXCEPT !.st = Bad(@)]
  ELSE LET b == InferArg(a.st, a.c, a.i, FALSE, a.inf /\ t.rg = "I") IN
       IF b.st.r # "ok" THEN [a EXCEPT !.st = b.st]
       ELSE TakeRest([a EXCEPT !.st = b.st, !.c = b.c, !.i = b.i, !.new = IF a.par THEN @ ELSE Append(@, b.c[a.i])], t, k + 1)

(***************************************************************************)
(* Declaration scripts: env gives the script's variables; the result has   *)
(* the call so far (a), the node of the value (0: nil) and env             *)
(***************************************************************************)
ScriptRes(a, v, env) == [a |-> a, v |-> v, env |-> env]
Script(a, t, n, env) ==
  LET nd == a.st.nd
      x == nd[n]
  IN IF a.st.r # "ok" THEN ScriptRes(a, 0, env)
     ELSE IF IsId(x) THEN IF x.v \in DOMAIN env THEN ScriptRes(a, env[x.v], env) ELSE ScriptRes([a EXCEPT !.st = Beyond(@)], 0, env)
     ELSE IF x.c = <<>> THEN ScriptRes(a, 0, env)
     ELSE LET h == nd[x.c[1]] IN
          CASE ScriptHead(h, "infer-and-get-next-argument") -> LET b == TakeArg(a, t) IN ScriptRes(b, b.v, env)
            [] ScriptHead(h, "quote") -> ScriptRes(a, x.c[2], env)
            [] ScriptHead(h, "var") ->
                 LET r == Script(a, t, x.c[3], env) IN ScriptRes(r.a, r.v, (nd[x.c[2]].v :> r.v) @@ env)
            [] ScriptHead(h, "declare-identifier") ->
                 LET r1 == Script(a, t, x.c[2], env)
                     r2 == Script(r1.a, t, x.c[3], r1.env)
                     st == r2.a.st
                     ty == st.nd[r2.v]
                     bad == [r2.a EXCEPT !.st = Bad(@)]
                 IN IF st.r # "ok" THEN r2
                    ELSE ScriptRes(IF r1.v = 0 \/ ~(st.nd[r1.v].k \in {"id", "str"}) THEN bad
                                   ELSE IF st.nd[r1.v].k = "str" THEN [r2.a EXCEPT !.st = Beyond(@)]
                                   ELSE IF r2.v = 0 THEN [r2.a EXCEPT !.st = DeclareName(st, st.nd[r1.v].v, Fn(<<>>))]
                                   ELSE IF ~(ty.k \in {"id", "list"}) THEN bad
                                   ELSE [r2.a EXCEPT !.st = AddDecl(st, st.nd[r1.v].v, r2.v, TRUE)], 0, r2.env)
            [] ScriptHead(h, "declaration-scope") ->
                 LET r == ScriptSeq([a EXCEPT !.st = PushScope(@)], t, Tail(x.c), env) IN
                 IF r.a.st.r # "ok" THEN r ELSE ScriptRes([r.a EXCEPT !.st = PopScope(@)], 0, env)
            [] OTHER -> LET r == ScriptSeq(a, t, x.c, env) IN ScriptRes(r.a, r.v, env)
ScriptSeq(a, t, c, env) ==
  IF c = <<>> \/ a.st.r # "ok" THEN ScriptRes(a, 0, env)
  ELSE LET r == Script(a, t, Head(c), env) IN IF Len(c) = 1 THEN r ELSE ScriptSeq(r.a, t, Tail(c), r.env)

(* The program the tree n stands for: [st, n].  Only a list has anything to infer. *)
Infer(nd, n) == InferForm([r |-> "ok", nd |-> nd, sc |-> <<BaseScope>>], n, TRUE)
================================================================================
