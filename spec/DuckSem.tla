-------------------------------- MODULE DuckSem --------------------------------
(***************************************************************************)
(* An abstract machine for the duck-lisp language: what a session of       *)
(* source chunks, loaded by one compiler and executed by one VM, must be   *)
(* observed to do.                                                         *)
(*                                                                         *)
(* The machine is a CEK-style small-step machine: control, environment,    *)
(* continuation, plus the store of lexical variables, the heap of mutable  *)
(* objects and the table of globals.  It knows nothing of bytecode, stack  *)
(* slots, upvalues, a bounded heap or a collector: variables are captured  *)
(* by reference simply because environments name store locations, and the  *)
(* heap never runs out.  The real compiler and VM are bound to it by       *)
(* running the same sessions and comparing everything observable.          *)
(*                                                                         *)
(* One behaviour of this specification per session; terminal states carry  *)
(* a verdict for every recorded run of that session.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, DuckChars

Inference == INSTANCE DuckInfer

Sessions == ndJsonDeserialize(IOEnv.DUCK_IN)

MaxSteps == 20000

(***************************************************************************)
(* Values                                                                  *)
(***************************************************************************)
Int_(i)   == [t |-> "int", v |-> i]
Bool_(b)  == [t |-> "bool", v |-> b]
Flt(m, e) == [t |-> "flt", v |-> m, e |-> e]      \* m * 2^e, m odd or 0
Str(s)    == [t |-> "str", v |-> s]
Sym(n)    == [t |-> "sym", v |-> n]
Nil       == [t |-> "nil"]
Cons(a)   == [t |-> "cons", v |-> a]              \* heap address
Vec(a, o) == [t |-> "vec", v |-> a, o |-> o]      \* heap address (0: empty) and offset
Clo(a)    == [t |-> "clo", v |-> a]
Host(n)   == [t |-> "fun", v |-> n]
Prim(n)   == [t |-> "type", v |-> 0, n |-> n]
UType(i)  == [t |-> "type", v |-> i, n |-> ""]
Comp(a)   == [t |-> "comp", v |-> a]
User(i)   == [t |-> "user", v |-> i]

EmptyVec == Vec(0, 0)

HostArity == [x \in {"emit", "host-user"} |-> 1] @@ [x \in {"host-gc", "host-fail"} |-> 0]
             @@ [x \in {"host-args"} |-> 3] @@ [x \in {"host-call"} |-> 2]
HostNames == DOMAIN HostArity
(* C functions the compile-time environment has besides. *)
CompArity == "gensym" :> 0 @@ "intern" :> 1 @@ "read" :> 2
CompNames == HostNames \cup DOMAIN CompArity

(* Small integers and floats with few significant bits are computed exactly; anything larger is outside this module's
   scope (DuckNum treats 64-bit integers). *)
IntOK(i) == i < 1073741824 /\ i > -1073741824
SmallOK(i) == i < 32768 /\ i > -32768
Abs(i) == IF i < 0 THEN -i ELSE i

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
RECURSIVE NormF(_, _)
NormF(m, e) == IF m = 0 THEN Flt(0, 0) ELSE IF m % 2 = 0 THEN NormF(m \div 2, e + 1) ELSE Flt(m, e)

(* Truncating division, as C does it. *)
Quot(a, b) == LET q == Abs(a) \div Abs(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q

(* Results of partial operators: [r |-> "ok", v |-> value], "err" (the program is told about an error) or "oos" (this
   module does not say). *)
OK(v) == [r |-> "ok", v |-> v]
Err == [r |-> "err"]
OOS == [r |-> "oos"]

Same(a, b) == a.t = b.t /\ a = b

IsNum(v) == v.t \in {"bool", "int", "flt"}
ToI(v) == IF v.t = "bool" THEN IF v.v THEN 1 ELSE 0 ELSE v.v
ToF(v) == IF v.t = "flt" THEN v ELSE NormF(ToI(v), 0)
IntRes(i) == IF IntOK(i) THEN OK(Int_(i)) ELSE OOS

(* Float operands brought to a common exponent, when that stays small. *)
Aligned(a, b) ==
  LET e == IF a.v = 0 THEN b.e ELSE IF b.v = 0 THEN a.e ELSE IF a.e < b.e THEN a.e ELSE b.e
      sa == IF a.v = 0 THEN 0 ELSE a.e - e
      sb == IF b.v = 0 THEN 0 ELSE b.e - e
  IN IF sa > 12 \/ sb > 12 \/ ~SmallOK(a.v) \/ ~SmallOK(b.v) THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, a |-> a.v * Pow2(sa), b |-> b.v * Pow2(sb), e |-> e]

FArith(op, a, b) ==
  CASE op \in {"+", "-"} ->
         LET al == Aligned(a, b) IN
         IF ~al.ok THEN OOS ELSE OK(NormF(IF op = "+" THEN al.a + al.b ELSE al.a - al.b, al.e))
    [] op = "*" -> IF SmallOK(a.v) /\ SmallOK(b.v) THEN OK(NormF(a.v * b.v, a.e + b.e)) ELSE OOS
    [] op = "/" -> IF b.v = 0 THEN OOS
                   ELSE IF Abs(a.v) % Abs(b.v) = 0 THEN OK(NormF(Quot(a.v, b.v), a.e - b.e)) ELSE OOS

Arith(op, a, b) ==
  IF ~IsNum(a) \/ ~IsNum(b) THEN Err
  ELSE IF a.t = "flt" \/ b.t = "flt" THEN FArith(op, ToF(a), ToF(b))
  ELSE LET x == ToI(a)
           y == ToI(b)
           r == CASE op = "+" -> IntRes(x + y)
                  [] op = "-" -> IntRes(x - y)
                  [] op = "*" -> IF SmallOK(x) /\ SmallOK(y) THEN IntRes(x * y) ELSE OOS
                  [] op = "/" -> IF y = 0 THEN Err ELSE IntRes(Quot(x, y))
       IN IF a.t = "bool" /\ b.t = "bool" /\ r.r = "ok" THEN OK(Bool_(r.v.v # 0)) ELSE r

Compare(op, a, b) ==
  IF ~IsNum(a) \/ ~IsNum(b) THEN Err
  ELSE IF a.t = "flt" \/ b.t = "flt"
       THEN LET al == Aligned(ToF(a), ToF(b)) IN
            IF ~al.ok THEN OOS ELSE OK(Bool_(IF op = "<" THEN al.a < al.b ELSE al.a > al.b))
       ELSE OK(Bool_(IF op = "<" THEN ToI(a) < ToI(b) ELSE ToI(a) > ToI(b)))

(* Vectors: a view of the elements from an offset on; the empty ones have no elements of their own, or lie past a
   truncation. *)
VecLen(h, v) == IF v.v = 0 \/ v.o >= Len(h[v.v].e) THEN 0 ELSE Len(h[v.v].e) - v.o
EmptyV(h, v) == v.t = "vec" /\ VecLen(h, v) = 0

Opaque(v) == v.t \in {"clo", "fun", "comp", "user"}
Equal(h, a, b) ==
  IF Opaque(a) \/ Opaque(b) THEN OOS
  ELSE IF a.t = "vec" /\ b.t = "vec" /\ (EmptyV(h, a) \/ EmptyV(h, b)) THEN OOS
  ELSE OK(Bool_(Same(a, b)))

(* "true", "false", or "?" where the language leaves it open. *)
Truth(h, v) ==
  CASE v.t = "bool" -> IF v.v THEN "t" ELSE "f"
    [] v.t \in {"int", "flt"} -> IF v.v # 0 THEN "t" ELSE "f"
    [] v.t = "nil" -> "f"
    [] v.t = "str" -> IF v.v = <<>> THEN "?" ELSE "t"
    [] v.t = "vec" -> IF EmptyV(h, v) THEN "f" ELSE "t"
    [] v.t \in {"sym", "clo", "fun", "cons"} -> "t"
    [] OTHER -> "?"

Not(h, v) ==
  CASE v.t = "bool" -> OK(Bool_(~v.v))
    [] v.t = "int" -> OK(Int_(IF v.v = 0 THEN 1 ELSE 0))
    [] v.t = "flt" -> OK(IF v.v = 0 THEN Flt(1, 0) ELSE Flt(0, 0))
    [] v.t = "nil" -> OK(Bool_(TRUE))
    [] v.t = "cons" -> OK(Bool_(FALSE))
    [] v.t = "vec" -> OK(Bool_(EmptyV(h, v)))
    [] v.t = "str" -> OOS
    [] OTHER -> Err

TypeOf(v) ==
  CASE v.t = "bool" -> Prim("bool") [] v.t = "int" -> Prim("integer") [] v.t = "flt" -> Prim("float")
    [] v.t = "str" -> Prim("string") [] v.t \in {"nil", "cons"} -> Prim("list") [] v.t = "sym" -> Prim("symbol")
    [] v.t = "fun" -> Prim("function") [] v.t = "clo" -> Prim("closure") [] v.t = "vec" -> Prim("vector")
    [] v.t = "type" -> Prim("type") [] v.t = "user" -> Prim("user")

(***************************************************************************)
(* Canonical printing (what the harness prints for a value).               *)
(***************************************************************************)
(* Generated symbols have names that nothing else can have: a byte no text contains (-k), which makes whatever prints or
   takes apart such a name unspecified. *)
Plain(b) == \A i \in 1..Len(b) : b[i] >= 0
RECURSIVE PrintBytes(_)
PrintBytes(s) == IF s = <<>> THEN "" ELSE PrintChar[Head(s) + 1] \o PrintBytes(Tail(s))

(* The printer threads a record b: b.n is the remaining budget (a negative budget makes the run out of scope) and b.tm
   the user types shown so far, in order of first appearance.  A user type is printed as its position there, so that
   types made and never seen leave no trace. *)
Spent(b) == [b EXCEPT !.n = @ - 1]
Over(b) == [s |-> "~", b |-> [b EXCEPT !.n = -1]]
TypeIndex(tm, i) == IF \E k \in 1..Len(tm) : tm[k] = i THEN CHOOSE k \in 1..Len(tm) : tm[k] = i ELSE 0
PrintUType(i, b) ==
  LET k == TypeIndex(b.tm, i) IN
  IF k # 0 THEN [s |-> "T" \o ToString(k), b |-> Spent(b)]
  ELSE [s |-> "T" \o ToString(Len(b.tm) + 1), b |-> [n |-> b.n - 1, tm |-> Append(b.tm, i)]]
RECURSIVE Pr(_, _, _, _), PrintSpine(_, _, _, _), PrintVec(_, _, _, _, _)
Pr(h, names, v, b) ==
  IF b.n <= 0 THEN Over(b)
  ELSE CASE v.t = "int" -> [s |-> "i" \o ToString(v.v), b |-> Spent(b)]
         [] v.t = "bool" -> [s |-> IF v.v THEN "bt" ELSE "bf", b |-> Spent(b)]
         [] v.t = "flt" -> [s |-> IF v.v = 0 THEN "f0" ELSE "f" \o ToString(v.v) \o "p" \o ToString(v.e), b |-> Spent(b)]
         [] v.t = "str" -> IF Plain(v.v) THEN [s |-> "s'" \o PrintBytes(v.v) \o "'", b |-> Spent(b)] ELSE Over(b)
         [] v.t = "sym" -> IF Plain(names[v.v]) THEN [s |-> "y" \o PrintBytes(names[v.v]), b |-> Spent(b)] ELSE Over(b)
         [] v.t = "nil" -> [s |-> "n", b |-> Spent(b)]
         [] v.t = "fun" -> [s |-> "F", b |-> Spent(b)]
         [] v.t = "user" -> [s |-> "u", b |-> Spent(b)]
         [] v.t = "clo" -> [s |-> "c" \o ToString(Len(h[v.v].ps)) \o (IF h[v.v].rest # "" THEN "v" ELSE ""), b |-> Spent(b)]
         [] v.t = "type" -> IF v.n # "" THEN [s |-> "t" \o v.n, b |-> Spent(b)] ELSE PrintUType(v.v, b)
         [] v.t = "comp" ->
              LET c == h[v.v]
                  p1 == Pr(h, names, c.ty, Spent(b))
                  p2 == Pr(h, names, c.val, p1.b)
                  p3 == Pr(h, names, c.fn, p2.b)
              IN [s |-> "<" \o p1.s \o " " \o p2.s \o " " \o p3.s \o ">", b |-> p3.b]
         [] v.t = "vec" -> IF EmptyV(h, v) THEN [s |-> "[]", b |-> Spent(b)]
                           ELSE LET p == PrintVec(h, names, h[v.v].e, v.o + 1, Spent(b)) IN [s |-> "[" \o p.s \o "]", b |-> p.b]
         [] v.t = "cons" ->
              LET p1 == Pr(h, names, h[v.v].a, Spent(b))
                  p2 == PrintSpine(h, names, h[v.v].d, p1.b)
              IN [s |-> "(" \o p1.s \o p2.s \o ")", b |-> p2.b]
PrintSpine(h, names, v, b) ==
  IF b.n <= 0 THEN Over(b)
  ELSE IF v.t = "nil" THEN [s |-> "", b |-> b]
  ELSE IF v.t = "cons" THEN LET p1 == Pr(h, names, h[v.v].a, Spent(b))
                                p2 == PrintSpine(h, names, h[v.v].d, p1.b)
                            IN [s |-> " " \o p1.s \o p2.s, b |-> p2.b]
  ELSE LET p == Pr(h, names, v, b) IN [s |-> " . " \o p.s, b |-> p.b]
PrintVec(h, names, e, i, b) ==
  IF b.n <= 0 THEN Over(b)
  ELSE IF i > Len(e) THEN [s |-> "", b |-> b]
  ELSE LET p == Pr(h, names, e[i], b)
           q == PrintVec(h, names, e, i + 1, p.b)
       IN [s |-> p.s \o (IF i < Len(e) THEN " " ELSE "") \o q.s, b |-> q.b]

(* The budget is a bound on size; a separate bound on depth keeps recursion here and in the printer in step. *)
PrintBudget == 35
Full(m) == [n |-> PrintBudget, tm |-> m.tm]

(* The node and symbol tables of a session grow while macros are expanded: xn and xs are what was added. *)
Nodes(m, s) == IF m.xn = <<>> THEN s.nodes ELSE s.nodes \o m.xn
Names(m, s) == IF m.xs = <<>> THEN s.names ELSE s.names @@ m.xs

(***************************************************************************)
(* The machine                                                             *)
(*   ctl   what is being done: [t "ev", n node] evaluate, [t "va", v] a    *)
(*         value is being returned, [t "next"] between chunks              *)
(*   env   index into envs, the shared tree of bindings (0: empty)         *)
(*   kont  stack of frames, top last                                       *)
(*   locs  store of lexical variables;  heap  mutable objects              *)
(*   glob  globals;  out  observations so far;  pc  next operation         *)
(*   sl    stack length the API must report, or -1 while unspecified       *)
(*   hv    a text without specified meaning was run: the globals are unknown *)
(*   ph    "rt" while a program runs, "ct" while it is compiled              *)
(*   cg    the globals of the other phase                                    *)
(*   xk    what is being expanded, innermost last; xn, xs: see Nodes, Names  *)
(*   md    whose code is being expanded: the program's ("r") or compile-time *)
(*         code ("c");  xr, xc: the functions and macros in scope for either *)
(*         (indices into ste);  ce: the compile-time variables in scope       *)
(*   gs    number of generated symbols                                       *)
(***************************************************************************)

Start == [ctl |-> [t |-> "next"], env |-> 0, kont |-> <<>>, envs |-> <<>>, locs |-> <<>>, heap |-> <<>>,
          glob |-> [x \in HostNames |-> Host(x)], out |-> <<>>, pc |-> 1, sl |-> 0, ntype |-> 0, tm |-> <<>>, fd |-> 0,
          hv |-> FALSE, st |-> "run", n |-> 0, ph |-> "rt", cg |-> [x \in CompNames |-> Host(x)], xk |-> <<>>, xn |-> <<>>,
          xs |-> <<>>, md |-> "r", xr |-> 0, xc |-> 0, ce |-> 0, ste |-> <<>>, gs |-> 0]


RECURSIVE Look(_, _, _, _)
Look(envs, e, name, kinds) ==
  IF e = 0 THEN 0
  ELSE IF envs[e].n = name /\ envs[e].k \in kinds THEN e
  ELSE Look(envs, envs[e].p, name, kinds)

LookVar(m, name) == Look(m.envs, m.env, name, {"var", "fun"})
LookFun(m, name) == Look(m.envs, m.env, name, {"fun"})

(* Bind a name in the current environment to a fresh location. *)
Bind(m, name, kind, v) ==
  [m EXCEPT !.locs = Append(@, v),
            !.envs = Append(@, [p |-> m.env, n |-> name, k |-> kind, l |-> Len(m.locs) + 1, d |-> m.fd]),
            !.env = Len(m.envs) + 1]

Ret(m, v) == [m EXCEPT !.ctl = [t |-> "va", v |-> v]]
Eval(m, n) == [m EXCEPT !.ctl = [t |-> "ev", n |-> n]]
Push(m, f) == [m EXCEPT !.kont = Append(@, f)]
Pop(m) == [m EXCEPT !.kont = SubSeq(@, 1, Len(@) - 1)]
Fail(m) == [m EXCEPT !.ctl = [t |-> "fail"]]
OutOfScope(m) == [m EXCEPT !.st = "oos"]
Emit(m, s) == [m EXCEPT !.out = Append(@, s)]
Take(m, r) == CASE r.r = "ok" -> Ret(m, r.v) [] r.r = "err" -> Fail(m) [] OTHER -> OutOfScope(m)
Alloc(m, c) == [m EXCEPT !.heap = Append(@, c)]
NewAddr(m) == Len(m.heap) + 1

RECURSIVE ListOf(_, _, _)
(* Allocate a list of the values vs, ending in tail. *)
ListOf(m, vs, tail) ==
  IF vs = <<>> THEN [m |-> m, v |-> tail]
  ELSE LET n == Len(vs)
           m1 == Alloc(m, [k |-> "cons", a |-> vs[n], d |-> tail])
       IN ListOf(m1, SubSeq(vs, 1, n - 1), Cons(NewAddr(m)))

(* The elements of a proper list, or a flag; fuel guards against cycles. *)
RECURSIVE Elems(_, _, _)
Elems(h, v, fuel) ==
  IF v.t = "nil" THEN [ok |-> TRUE, e |-> <<>>]
  ELSE IF v.t # "cons" \/ fuel = 0 THEN [ok |-> FALSE, e |-> <<>>]
  ELSE LET r == Elems(h, h[v.v].d, fuel - 1) IN [ok |-> r.ok, e |-> <<h[v.v].a>> \o r.e]

(***************************************************************************)
(* Quotation: from syntax to data                                          *)
(***************************************************************************)
RECURSIVE Quote(_, _, _), QuoteSeq(_, _, _)
Quote(m, nd, n) ==
  LET x == nd[n] IN
  CASE x.k = "int" -> [m |-> m, v |-> Int_(x.v)]
    [] x.k = "flt" -> [m |-> m, v |-> NormF(x.v, x.e)]
    [] x.k = "bool" -> [m |-> m, v |-> Bool_(x.v)]
    [] x.k = "str" -> [m |-> m, v |-> Str(x.v)]
    [] x.k = "id" -> [m |-> m, v |-> Sym(x.v)]
    [] x.k = "list" -> QuoteSeq(m, nd, x.c)
QuoteSeq(m, nd, c) ==
  IF c = <<>> THEN [m |-> m, v |-> Nil]
  ELSE LET h == Quote(m, nd, Head(c))
           r == QuoteSeq(h.m, nd, Tail(c))
       IN [m |-> Alloc(r.m, [k |-> "cons", a |-> h.v, d |-> r.v]), v |-> Cons(Len(r.m.heap) + 1)]

(***************************************************************************)
(* Calls                                                                   *)
(***************************************************************************)
RECURSIVE BindAll(_, _, _, _)
BindAll(m, ps, vs, i) == IF i > Len(ps) THEN m ELSE BindAll(Bind(m, ps[i], "var", vs[i]), ps, vs, i + 1)

PrintOn(m, s, v, k) ==   \* append the printed value as an observation
  LET p == Pr(m.heap, Names(m, s), v, Full(m)) IN
  IF p.b.n < 0 THEN OutOfScope(m) ELSE Ret(Emit([m EXCEPT !.tm = p.b.tm], (IF m.ph = "ct" THEN "v " ELSE "V ") \o p.s), k)

NewSymbol(m, name, bytes) == Ret([m EXCEPT !.xs = IF @ = <<>> THEN (name :> bytes) ELSE @ @@ (name :> bytes)], Sym(name))
Gensym(m) == NewSymbol([m EXCEPT !.gs = @ + 1], "%g" \o ToString(m.gs + 1), <<-(m.gs + 1)>>)
Intern(m, s, v) ==
  IF v.t # "str" THEN Fail(m)
  ELSE LET nm == Names(m, s)
           known == {x \in DOMAIN nm : nm[x] = v.v}
       IN IF known # {} THEN Ret(m, Sym(CHOOSE x \in known : TRUE))
          ELSE NewSymbol([m EXCEPT !.gs = @ + 1], IF Plain(v.v) THEN PrintBytes(v.v) ELSE "%n" \o ToString(m.gs + 1), v.v)
(* The texts a session reads at compile time come with what the reader makes of them (C11 is about that): n is a node, or
   0 for a text it refuses. *)
Read(m, s, t, inf) ==
  IF inf.t # "bool" \/ t.t # "str" THEN Fail(m)
  ELSE IF inf.v \/ ~\E i \in 1..Len(s.reads) : s.reads[i].b = t.v THEN OutOfScope(m)
  ELSE LET r == s.reads[CHOOSE i \in 1..Len(s.reads) : s.reads[i].b = t.v] IN
       IF r.n = 0 THEN Ret(Alloc(m, [k |-> "cons", a |-> Nil, d |-> Int_(1)]), Cons(NewAddr(m)))
       ELSE LET q == Quote(m, s.nodes, r.n) IN Ret(Alloc(q.m, [k |-> "cons", a |-> q.v, d |-> Int_(0)]), Cons(NewAddr(q.m)))

RECURSIVE Call(_, _, _, _)
Call(m, s, f, as) ==
  CASE f.t = "clo" ->
         LET c == m.heap[f.v]
             na == Len(c.ps)
         IN IF (c.rest = "" /\ Len(as) # na) \/ Len(as) < na THEN Fail(m)
            ELSE LET m1 == [Push(m, [f |-> "ret", env |-> m.env, fd |-> m.fd]) EXCEPT !.env = c.env, !.fd = c.fd + 1]
                     m2 == Bind(m1, "self", "fun", f)
                     m3 == BindAll(m2, c.ps, as, 1)
                     m4 == IF c.rest = "" THEN m3
                           ELSE LET l == ListOf(m3, SubSeq(as, na + 1, Len(as)), Nil) IN Bind(l.m, c.rest, "var", l.v)
                 IN Ret(Push(m4, [f |-> "seq", ns |-> c.body, env |-> m4.env, sc |-> TRUE]), Nil)
    [] f.t = "comp" -> LET g == m.heap[f.v].fn IN IF g.t = "comp" /\ Len(m.kont) > 500 THEN OutOfScope(m) ELSE Call(m, s, g, as)
    [] f.t = "fun" ->
         IF Len(as) # (HostArity @@ CompArity)[f.v] THEN OutOfScope(m)
         ELSE (CASE f.v = "emit" -> PrintOn(m, s, as[1], as[1])
                [] f.v = "host-gc" -> Ret(m, Nil)
                [] f.v = "gensym" -> Gensym(m)
                [] f.v = "intern" -> Intern(m, s, as[1])
                [] f.v = "read" -> Read(m, s, as[1], as[2])
                [] f.v = "host-fail" -> Fail(m)
                [] f.v = "host-user" -> IF as[1].t = "int" THEN Ret(m, User(as[1].v)) ELSE Fail(m)
                [] f.v = "host-args" ->
                     LET p1 == Pr(m.heap, Names(m, s), as[1], Full(m))
                         p2 == Pr(m.heap, Names(m, s), as[2], [Full(m) EXCEPT !.tm = p1.b.tm])
                         p3 == Pr(m.heap, Names(m, s), as[3], [Full(m) EXCEPT !.tm = p2.b.tm])
                     IN IF p1.b.n < 0 \/ p2.b.n < 0 \/ p3.b.n < 0 THEN OutOfScope(m)
                        ELSE Ret(Emit([m EXCEPT !.tm = p3.b.tm], (IF m.ph = "ct" THEN "v " ELSE "V ") \o p1.s \o "," \o p2.s \o "," \o p3.s), Nil)
                [] f.v = "host-call" -> Call(m, s, as[1], <<as[2]>>))
    [] OTHER -> Fail(m)

(***************************************************************************)
(* Strict primitive operators                                              *)
(***************************************************************************)
Arity == ("+" :> 2 @@ "-" :> 2 @@ "*" :> 2 @@ "/" :> 2 @@ "=" :> 2 @@ "<" :> 2 @@ ">" :> 2 @@ "cons" :> 2
  @@ "get-vector-element" :> 2 @@ "set-car" :> 2 @@ "set-cdr" :> 2 @@ "concatenate" :> 2 @@ "make-vector" :> 2
  @@ "set-composite-value" :> 2 @@ "set-composite-function" :> 2 @@ "not" :> 1 @@ "car" :> 1 @@ "cdr" :> 1
  @@ "null?" :> 1 @@ "type-of" :> 1 @@ "composite-value" :> 1 @@ "composite-function" :> 1 @@ "make-string" :> 1
  @@ "length" :> 1 @@ "symbol-string" :> 1 @@ "symbol-id" :> 1 @@ "set-vector-element" :> 3 @@ "make-instance" :> 3
  @@ "substring" :> 3 @@ "make-type" :> 0)
Strict == DOMAIN Arity

AllBytes(e) == \A i \in 1..Len(e) : e[i].t = "int"
MakeString(m, v) ==
  CASE v.t \in {"nil", "cons"} ->
         LET l == Elems(m.heap, v, 200) IN
         IF ~l.ok \/ ~AllBytes(l.e) THEN Err ELSE OK(Str([i \in 1..Len(l.e) |-> l.e[i].v % 256]))
    [] v.t = "vec" ->
         IF EmptyV(m.heap, v) THEN OK(Str(<<>>))
         ELSE LET e == m.heap[v.v].e
                  l == SubSeq(e, v.o + 1, Len(e))
              IN IF ~AllBytes(l) THEN Err ELSE OK(Str([i \in 1..Len(l) |-> l[i].v % 256]))
    [] OTHER -> Err

TextOf(m, s, v) == IF v.t = "str" THEN v.v ELSE Names(m, s)[v.v]

Length(m, v) ==
  CASE v.t \in {"nil", "cons"} -> LET l == Elems(m.heap, v, 200) IN IF l.ok THEN OK(Int_(Len(l.e))) ELSE OOS
    [] v.t = "vec" -> OK(Int_(VecLen(m.heap, v)))
    [] v.t = "str" -> OK(Int_(Len(v.v)))
    [] OTHER -> Err

Car(m, v) ==
  CASE v.t = "cons" -> OK(m.heap[v.v].a)
    [] v.t = "nil" -> OK(Nil)
    [] v.t = "str" -> IF v.v = <<>> THEN OK(v) ELSE OK(Int_(v.v[1]))
    [] v.t = "vec" -> IF EmptyV(m.heap, v) THEN OK(EmptyVec) ELSE OK(m.heap[v.v].e[v.o + 1])
    [] OTHER -> Err
Cdr(m, v) ==
  CASE v.t = "cons" -> OK(m.heap[v.v].d)
    [] v.t = "nil" -> OK(Nil)
    [] v.t = "str" -> IF v.v = <<>> THEN OK(v) ELSE OK(Str(Tail(v.v)))
    [] v.t = "vec" -> OK(IF VecLen(m.heap, v) <= 1 THEN EmptyVec ELSE Vec(v.v, v.o + 1))
    [] OTHER -> Err

Prim_(m, s, op, a) ==
  IF op \in {"length", "car", "cdr", "get-vector-element", "substring", "make-string"} /\ a[1].t = "str" /\ ~Plain(a[1].v)
  THEN OutOfScope(m) ELSE
  CASE op \in {"+", "-", "*", "/"} -> Take(m, Arith(op, a[1], a[2]))
    [] op \in {"<", ">"} -> Take(m, Compare(op, a[1], a[2]))
    [] op = "=" -> Take(m, Equal(m.heap, a[1], a[2]))
    [] op = "not" -> Take(m, Not(m.heap, a[1]))
    [] op = "cons" -> Ret(Alloc(m, [k |-> "cons", a |-> a[1], d |-> a[2]]), Cons(NewAddr(m)))
    [] op = "car" -> Take(m, Car(m, a[1]))
    [] op = "cdr" -> Take(m, Cdr(m, a[1]))
    [] op = "null?" -> Ret(m, Bool_(a[1].t = "nil" \/ EmptyV(m.heap, a[1]) \/ (a[1].t = "str" /\ a[1].v = <<>>)))
    [] op = "type-of" -> Ret(m, IF a[1].t = "comp" THEN m.heap[a[1].v].ty ELSE TypeOf(a[1]))
    [] op = "length" -> Take(m, Length(m, a[1]))
    [] op = "set-car" ->
         CASE a[1].t = "cons" -> Ret([m EXCEPT !.heap[a[1].v].a = a[2]], a[1])
           [] a[1].t = "vec" -> IF EmptyV(m.heap, a[1]) THEN Fail(m) ELSE Ret([m EXCEPT !.heap[a[1].v].e[a[1].o + 1] = a[2]], a[1])
           [] a[1].t = "str" -> OutOfScope(m)
           [] OTHER -> Fail(m)
    [] op = "set-cdr" ->
         CASE a[1].t = "cons" -> Ret([m EXCEPT !.heap[a[1].v].d = a[2]], a[1])
           (* only the empty tail can be given to a vector: it is cut off after the first element of this view *)
           [] a[1].t = "vec" -> IF EmptyV(m.heap, a[1]) \/ ~(a[2].t = "nil" \/ EmptyV(m.heap, a[2])) THEN Fail(m)
                                ELSE Ret([m EXCEPT !.heap[a[1].v].e = SubSeq(@, 1, a[1].o + 1)], a[1])
           [] a[1].t = "str" -> OutOfScope(m)
           [] OTHER -> Fail(m)
    [] op = "make-vector" ->
         IF a[1].t # "int" THEN Fail(m)
         ELSE IF a[1].v < 0 \/ a[1].v > 200 THEN OutOfScope(m)
         ELSE IF a[1].v = 0 THEN Ret(m, EmptyVec)
         ELSE Ret(Alloc(m, [k |-> "vec", e |-> [i \in 1..a[1].v |-> a[2]]]), Vec(NewAddr(m), 0))
    [] op = "get-vector-element" ->
         IF a[1].t = "str" /\ a[2].t = "int"
         THEN IF a[2].v < 0 \/ a[2].v >= Len(a[1].v) THEN Fail(m) ELSE Ret(m, Int_(a[1].v[a[2].v + 1]))
         ELSE IF a[1].t # "vec" \/ a[2].t # "int" THEN Fail(m)
         ELSE IF a[2].v < 0 \/ a[2].v >= VecLen(m.heap, a[1]) THEN Fail(m)
         ELSE Ret(m, m.heap[a[1].v].e[a[1].o + a[2].v + 1])
    [] op = "set-vector-element" ->
         IF a[1].t = "str" THEN OutOfScope(m)
         ELSE IF a[1].t # "vec" \/ a[2].t # "int" THEN Fail(m)
         ELSE IF a[2].v < 0 \/ a[2].v >= VecLen(m.heap, a[1]) THEN Fail(m)
         ELSE Ret([m EXCEPT !.heap[a[1].v].e[a[1].o + a[2].v + 1] = a[3]], a[3])
    [] op = "make-type" -> Ret([m EXCEPT !.ntype = @ + 1], UType(m.ntype))
    [] op = "make-instance" ->
         IF a[1].t # "type" \/ a[1].n # "" THEN Fail(m)
         ELSE Ret(Alloc(m, [k |-> "comp", ty |-> a[1], val |-> a[2], fn |-> a[3]]), Comp(NewAddr(m)))
    [] op = "composite-value" -> IF a[1].t # "comp" THEN Fail(m) ELSE Ret(m, m.heap[a[1].v].val)
    [] op = "composite-function" -> IF a[1].t # "comp" THEN Fail(m) ELSE Ret(m, m.heap[a[1].v].fn)
    [] op = "set-composite-value" -> IF a[1].t # "comp" THEN Fail(m) ELSE Ret([m EXCEPT !.heap[a[1].v].val = a[2]], a[1])
    [] op = "set-composite-function" -> IF a[1].t # "comp" THEN Fail(m) ELSE Ret([m EXCEPT !.heap[a[1].v].fn = a[2]], a[1])
    [] op = "make-string" -> Take(m, MakeString(m, a[1]))
    [] op = "concatenate" ->
         IF a[1].t \notin {"str", "sym"} \/ a[2].t \notin {"str", "sym"} THEN Fail(m)
         ELSE Ret(m, Str(TextOf(m, s, a[1]) \o TextOf(m, s, a[2])))
    [] op = "substring" ->
         IF a[1].t # "str" \/ a[2].t # "int" \/ a[3].t # "int" THEN Fail(m)
         ELSE IF a[2].v < 0 \/ a[3].v < a[2].v \/ a[3].v > Len(a[1].v) THEN Fail(m)
         ELSE Ret(m, Str(SubSeq(a[1].v, a[2].v + 1, a[3].v)))
    [] op = "symbol-string" -> IF a[1].t # "sym" THEN Fail(m) ELSE Ret(m, Str(Names(m, s)[a[1].v]))
    [] op = "symbol-id" -> IF a[1].t # "sym" THEN Fail(m) ELSE OutOfScope(m)

(***************************************************************************)
(* Evaluation of a form                                                    *)
(***************************************************************************)
Lambda(m, nd, params, body) ==   \* params: node of the parameter list
  LET ids == [i \in 1..Len(nd[params].c) |-> nd[nd[params].c[i]].v]
      n == Len(ids)
      variadic == n >= 2 /\ ids[n - 1] = "&rest"
  IN [k |-> "clo", ps |-> IF variadic THEN SubSeq(ids, 1, n - 2) ELSE ids, rest |-> IF variadic THEN ids[n] ELSE "",
      body |-> body, env |-> m.env, fd |-> m.fd]

(* Evaluate the arguments `rest` in order, then continue with op.  late: the location an operand was read from, or 0.
   A later change of that location before the operator runs is unspecified by the language (the implementation reads
   operands by reference), and takes the run out of scope. *)
ArgFrame(op, x, todo, env) == [f |-> "args", op |-> op, x |-> x, done |-> <<>>, late |-> <<>>, todo |-> todo, env |-> env]

LateOf(m, nd, n) == IF nd[n].k = "id" THEN LookVar(m, nd[n].v) ELSE 0

StartArgs(m, s, op, x, todo) ==
  Ret(Push(m, ArgFrame(op, x, todo, m.env)), [t |-> "start"])

Reverse(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]

EvalForm(m, s, n) ==
  LET nd == Nodes(m, s)
      c == nd[n].c
      h == nd[c[1]]
      name == h.v
      kw == IF name \in Keywords THEN Keyword[name] ELSE ""
      rest == Tail(c)
      lf == LookFun(m, name)
  IN IF lf # 0 THEN StartArgs(m, s, "calllocal", m.envs[lf].l, rest)
     ELSE IF name \in CompNames /\ m.hv THEN OutOfScope(m)
     ELSE IF name \in CompNames THEN StartArgs(m, s, "host", name, rest)
     ELSE IF kw = "" THEN
          (* a global function; its value is fetched before the arguments are evaluated *)
          IF m.hv THEN OutOfScope(m)
          ELSE IF name \notin DOMAIN m.glob THEN Fail(m)
          ELSE StartArgs(m, s, "callglobal", name, rest)
     ELSE IF kw \in Strict THEN StartArgs(m, s, kw, "", rest)
     ELSE CASE kw \in {"list", "vector"} -> StartArgs(m, s, kw, "", Reverse(rest))
            [] kw \in {"funcall", "apply"} -> StartArgs(m, s, kw, "", rest)
            [] kw = "quote" -> LET q == Quote(m, nd, rest[1]) IN Ret(q.m, q.v)
            [] kw = "var" -> Eval(Push(m, [f |-> "var", x |-> nd[rest[1]].v]), rest[2])
            [] kw = "global" -> Eval(Push(m, [f |-> "global", x |-> nd[rest[1]].v, env |-> m.env]), rest[2])
            [] kw = "setq" -> Eval(Push(m, [f |-> "setq", x |-> nd[rest[1]].v, env |-> m.env]), rest[2])
            [] kw = "lambda" -> LET m1 == Alloc(m, Lambda(m, nd, rest[1], Tail(rest))) IN Ret(m1, Clo(NewAddr(m)))
            [] kw = "defun" ->
                 LET m1 == Alloc(m, Lambda(m, nd, rest[2], Tail(Tail(rest)))) IN
                 Ret(Bind(m1, nd[rest[1]].v, "fun", Clo(NewAddr(m))), Clo(NewAddr(m)))
            [] kw = "declare" -> Ret(m, Nil)
            [] kw = "noscope" -> Ret(Push(m, [f |-> "seq", ns |-> rest, env |-> m.env, sc |-> FALSE]), Nil)
            [] kw = "if" -> Eval(Push(m, [f |-> "if", a |-> rest[2], b |-> rest[3], env |-> m.env]), rest[1])
            [] kw \in {"when", "unless"} -> Eval(Push(m, [f |-> kw, ns |-> Tail(rest), env |-> m.env]), rest[1])
            [] kw = "while" -> Eval(Push(m, [f |-> "while", c |-> rest[1], ns |-> Tail(rest), env |-> m.env]), rest[1])
            [] OTHER -> OutOfScope(m)

(* The value about to be returned is thrown away within the same function.  Reading a variable for nothing may be
   optimised away, and with it the error of reading one that does not exist. *)
RECURSIVE Discarded(_, _)
Discarded(kont, i) ==
  /\ i > 0
  /\ CASE kont[i].f = "seq" -> kont[i].ns # <<>> \/ Discarded(kont, i - 1)
       [] kont[i].f = "loop" -> TRUE
       [] OTHER -> FALSE

EvalStep(m, s) ==
  LET x == Nodes(m, s)[m.ctl.n] IN
  CASE x.k = "int" -> Ret(m, Int_(x.v))
    [] x.k = "flt" -> Ret(m, NormF(x.v, x.e))
    [] x.k = "bool" -> Ret(m, Bool_(x.v))
    [] x.k = "str" -> Ret(m, Str(x.v))
    [] x.k = "id" ->
         LET l == LookVar(m, x.v) IN
         IF l # 0 THEN Ret(m, m.locs[m.envs[l].l])
         ELSE IF m.hv THEN OutOfScope(m)
         ELSE IF x.v \in DOMAIN m.glob THEN Ret(m, m.glob[x.v])
         ELSE IF Discarded(m.kont, Len(m.kont)) THEN OutOfScope(m)
         ELSE Fail(m)
    [] x.k = "list" ->
         IF x.c = <<>> THEN Ret(m, Nil)
         ELSE IF Nodes(m, s)[x.c[1]].k = "id" THEN EvalForm(m, s, m.ctl.n)
         ELSE Ret(Push(m, [f |-> "seq", ns |-> x.c, env |-> m.env, sc |-> TRUE]), Nil)

(***************************************************************************)
(* Return of a value to the top frame                                      *)
(***************************************************************************)
LateChanged(m, late, done) ==
  \E i \in 1..Len(late) : late[i] # 0 /\ ~Same(m.locs[m.envs[late[i]].l], done[i])

ArgsDone(m, s, fr, done) ==     \* m: machine with the frame popped and its environment restored
  CASE fr.op = "calllocal" -> Call(m, s, m.locs[fr.x], done)
    (* a C function's global may have been given another value: another C function is called, anything else refused *)
    [] fr.op = "host" -> IF fr.x \in DOMAIN m.glob /\ m.glob[fr.x].t = "fun" THEN Call(m, s, m.glob[fr.x], done) ELSE Fail(m)
    [] fr.op = "callglobal" -> IF ~Same(m.glob[fr.x], fr.g) THEN OutOfScope(m) ELSE Call(m, s, fr.g, done)
    [] fr.op = "funcall" -> IF LateChanged(m, <<fr.late[1]>>, done) THEN OutOfScope(m) ELSE Call(m, s, done[1], Tail(done))
    [] fr.op = "apply" ->
         IF LateChanged(m, fr.late, done) THEN OutOfScope(m)
         ELSE LET l == done[Len(done)]
                  e == Elems(m.heap, l, 200)
              IN IF l.t \notin {"nil", "cons"} THEN Fail(m)
                 ELSE IF ~e.ok THEN OutOfScope(m)
                 ELSE Call(m, s, done[1], SubSeq(done, 2, Len(done) - 1) \o e.e)
    [] fr.op = "list" ->
         IF LateChanged(m, fr.late, done) THEN OutOfScope(m)
         ELSE LET l == ListOf(m, Reverse(done), Nil) IN Ret(l.m, l.v)
    [] fr.op = "vector" ->
         IF LateChanged(m, fr.late, done) THEN OutOfScope(m)
         ELSE IF done = <<>> THEN Ret(m, EmptyVec)
         ELSE Ret(Alloc(m, [k |-> "vec", e |-> Reverse(done)]), Vec(NewAddr(m), 0))
    [] OTHER -> IF LateChanged(m, fr.late, done) THEN OutOfScope(m) ELSE Prim_(m, s, fr.op, done)

ArgsStep(m, s, fr, v) ==
  LET n == Len(m.kont)
      first == v.t = "start"
      done == IF first THEN <<>> ELSE Append(fr.done, v)
      m0 == [m EXCEPT !.env = fr.env]
      fr0 == IF first /\ fr.op = "callglobal" THEN [f |-> "args", op |-> fr.op, x |-> fr.x, done |-> <<>>, late |-> <<>>,
                                                    todo |-> fr.todo, env |-> fr.env, g |-> m.glob[fr.x]] ELSE fr
  IN IF fr.todo = <<>> THEN ArgsDone(Pop(m0), s, fr0, done)
     ELSE LET nx == Head(fr.todo)
              fr1 == [fr0 EXCEPT !.done = done, !.late = Append(@, LateOf(m0, Nodes(m0, s), nx)), !.todo = Tail(@)]
          IN Eval([m0 EXCEPT !.kont[n] = fr1], nx)

Branch(m, s, v, yes, no) ==
  CASE Truth(m.heap, v) = "t" -> yes [] Truth(m.heap, v) = "f" -> no [] OTHER -> OutOfScope(m)

SetGlobal(m, x, v) == [m EXCEPT !.glob = [y \in DOMAIN @ \cup {x} |-> IF y = x THEN v ELSE @[y]]]

ReturnStep(m, s) ==
  LET n == Len(m.kont)
      fr == m.kont[n]
      v == m.ctl.v
      p == Pop(m)
      back == [p EXCEPT !.env = fr.env]
  IN CASE fr.f = "args" -> ArgsStep(m, s, fr, v)
       [] fr.f = "seq" ->
            IF fr.ns = <<>> THEN Ret(IF fr.sc THEN back ELSE p, v)
            ELSE Eval([m EXCEPT !.kont[n].ns = Tail(@)], Head(fr.ns))
       [] fr.f = "var" -> Ret(Bind(p, fr.x, "var", v), v)
       [] fr.f = "global" -> Ret(SetGlobal(back, fr.x, v), v)
       [] fr.f = "setq" ->
            LET l == LookVar(back, fr.x) IN
            IF l # 0 THEN Ret([back EXCEPT !.locs[back.envs[l].l] = v], v) ELSE Ret(SetGlobal(back, fr.x, v), v)
       [] fr.f = "ret" -> Ret([back EXCEPT !.fd = fr.fd], v)
       [] fr.f = "if" ->
            LET sc(x) == Push(back, [f |-> "seq", ns |-> <<x>>, env |-> back.env, sc |-> TRUE]) IN
            Branch(m, s, v, Ret(sc(fr.a), Nil), Ret(sc(fr.b), Nil))
       [] fr.f \in {"when", "unless"} ->
            LET run == Ret(Push(back, [f |-> "seq", ns |-> fr.ns, env |-> back.env, sc |-> TRUE]), Nil)
                skip == Ret(back, Nil)
            IN Branch(m, s, v, IF fr.f = "when" THEN run ELSE skip, IF fr.f = "when" THEN skip ELSE run)
       [] fr.f = "while" ->
            IF v.t = "again" THEN Eval([m EXCEPT !.env = fr.env], fr.c)
            ELSE Branch(m, s, v,
                        Ret(Push(Push([m EXCEPT !.env = fr.env], [f |-> "loop", env |-> fr.env]),
                                 [f |-> "seq", ns |-> fr.ns, env |-> fr.env, sc |-> TRUE]), Nil),
                        Ret(back, Nil))
       [] fr.f = "loop" -> Ret(p, [t |-> "again"])

(***************************************************************************)
(* Static well-formedness: what the compiler must reject                   *)
(***************************************************************************)
(* "ok", "err" (the compiler must refuse it), or "oos" (a shape this module does not speak about). *)
Worst(q) == IF \E i \in 1..Len(q) : q[i] = "oos" THEN "oos" ELSE IF \E i \in 1..Len(q) : q[i] = "err" THEN "err" ELSE "ok"

Params(nd, p) ==
  IF nd[p].k # "list" THEN "err"
  ELSE LET c == nd[p].c
           n == Len(c)
       IN IF \E i \in 1..n : nd[c[i]].k # "id" THEN "err"
          ELSE LET v == [i \in 1..n |-> nd[c[i]].v] IN
               IF \E i \in 1..n : v[i] = "&rest" /\ i # n - 1 THEN "err"
               ELSE IF \E i, j \in 1..n : i < j /\ v[i] = v[j] THEN "oos" ELSE "ok"

(* A declaration belongs in the body of a scope; as an operand its meaning is not defined. *)
Declares(nd, n) ==
  LET x == nd[n] IN
  /\ x.k = "list" /\ x.c # <<>>
  /\ nd[x.c[1]].k = "id"
  /\ nd[x.c[1]].v \in DOMAIN Keyword
  /\ Keyword[nd[x.c[1]].v] \in {"var", "defun", "noscope", "defmacro"}

(* How a form is made up.  w: what is wrong with the form itself; k: the positions in x.c of the forms that are compiled in
   it, in that order; o: those of them that are operands. *)
Shape(nd, n, kw) ==
  LET x == nd[n]
      na == Len(x.c) - 1
      rest == Tail(x.c)
      span(a, b) == [i \in 1..(IF b < a THEN 0 ELSE b - a + 1) |-> a + i]    \* arguments a..b
      last(a) == span(a, na)
      must(b, w, k, o) == [w |-> IF b THEN w ELSE "err", k |-> IF b THEN k ELSE <<>>, o |-> IF b THEN {o[i] : i \in 1..Len(o)} ELSE {}]
      isId(i) == nd[rest[i]].k = "id"
  IN CASE kw \in Strict -> must(na = Arity[kw], "ok", last(1), last(1))
       [] kw \in {"list", "vector"} -> must(TRUE, "ok", [i \in 1..na |-> na + 2 - i], last(1))
       [] kw = "quote" -> must(na = 1, "ok", <<>>, <<>>)
       [] kw \in {"var", "global", "setq"} -> must(na = 2 /\ isId(1), "ok", span(2, 2), span(2, 2))
       [] kw = "if" -> must(na = 3, "ok", <<2, 4, 3>>, last(1))
       [] kw \in {"when", "unless"} -> must(na >= 2, "ok", last(1), span(1, 1))
       [] kw = "while" -> must(na >= 2, "ok", last(2) \o <<2>>, span(1, 1))
       [] kw = "apply" -> must(na >= 2, "ok", last(1), last(1))
       [] kw = "noscope" -> must(TRUE, IF na = 0 THEN "oos" ELSE "ok", last(1), <<>>)
       [] kw = "funcall" -> must(TRUE, IF na = 0 THEN "oos" ELSE "ok", last(1), last(1))
       [] kw = "lambda" -> must(na >= 2, IF na >= 2 THEN Params(nd, rest[1]) ELSE "ok", last(2), <<>>)
       [] kw = "defun" -> must(na >= 3 /\ isId(1), IF na >= 3 THEN Params(nd, rest[2]) ELSE "ok", last(3), <<>>)
       [] kw = "defmacro" -> must(na >= 3 /\ isId(1), IF na >= 3 THEN Params(nd, rest[2]) ELSE "ok", last(3), <<>>)
       [] kw = "comptime" -> must(TRUE, "ok", last(1), <<>>)
       [] kw = "declare" -> must(TRUE, "ok", <<>>, <<>>)      \* only inference looks at declarations
       [] OTHER -> must(TRUE, "ok", last(1), last(1))

(* Positions of forms that can never run because the condition is written down as a constant.  They need not be compiled. *)
Dead(nd, n, kw) ==
  LET x == nd[n]
      c == nd[x.c[2]]
      yes == CASE c.k = "bool" -> c.v [] c.k \in {"int", "flt"} -> c.v # 0 [] c.k = "str" -> c.v # <<>> [] OTHER -> FALSE
  IN IF kw \notin {"if", "when", "unless", "while"} \/ c.k \notin {"bool", "int", "flt", "str"} THEN {}
     ELSE IF kw = "if" THEN (IF yes THEN {4} ELSE {3})
     ELSE IF (kw = "unless") = yes THEN 3..Len(x.c) ELSE {}

(* The verdict on a form without macros and compile-time code. *)
RECURSIVE WF(_, _)
WF(nd, n) ==
  LET x == nd[n] IN
  IF x.k # "list" \/ x.c = <<>> THEN "ok"
  ELSE IF nd[x.c[1]].k # "id" THEN Worst([i \in 1..Len(x.c) |-> WF(nd, x.c[i])])
  ELSE LET name == nd[x.c[1]].v
           kw == IF name \in Keywords THEN Keyword[name] ELSE ""
           sh == Shape(nd, n, kw)
       IN IF sh.w # "ok" THEN sh.w
          ELSE LET dead == Dead(nd, n, kw)
                   part(i) == IF i \in sh.o /\ Declares(nd, x.c[i]) THEN "oos"
                              ELSE LET w == WF(nd, x.c[i]) IN IF w # "ok" /\ i \in dead THEN "oos" ELSE w
               IN Worst([i \in 1..Len(sh.k) |-> part(sh.k[i])])

(***************************************************************************)
(* Compilation: macros and compile-time code                               *)
(*                                                                         *)
(* A program that has macros is walked form by form, as the compiler does. *)
(* A macro call is replaced by what the macro makes of it; compile-time    *)
(* code is expanded, run and replaced by its value.  All compile-time code *)
(* runs in this same machine, with variables and globals of its own.       *)
(***************************************************************************)
RECURSIVE LookStatic(_, _, _)
LookStatic(ste, e, name) == IF e = 0 THEN 0 ELSE IF ste[e].n = name THEN e ELSE LookStatic(ste, ste[e].p, name)
StaticTop(m) == IF m.md = "r" THEN m.xr ELSE m.xc
Declare(m, md, name, kind, l) ==
  LET m1 == [m EXCEPT !.ste = Append(@, [p |-> IF md = "r" THEN m.xr ELSE m.xc, n |-> name, k |-> kind, l |-> l])] IN
  IF md = "r" THEN [m1 EXCEPT !.xr = Len(m1.ste)] ELSE [m1 EXCEPT !.xc = Len(m1.ste)]

Expand(m, n) == [m EXCEPT !.ctl = [t |-> "x", n |-> n]]
Expanded(m, n) == [m EXCEPT !.ctl = [t |-> "xd", n |-> n]]
XPush(m, f) == [m EXCEPT !.xk = Append(@, f)]
NewNode(m, s, x) == [m |-> [m EXCEPT !.xn = Append(@, x)], n |-> Len(s.nodes) + Len(m.xn) + 1]

RECURSIVE Improper(_, _, _)
Improper(h, v, fuel) == fuel > 0 /\ v.t # "nil" /\ (v.t # "cons" \/ Improper(h, h[v.v].d, fuel - 1))

(* Compile-time values become forms again: as code, or (comptime) as forms that make the value. *)
RECURSIVE Form(_, _, _, _, _), FormSeq(_, _, _, _)
Form(m, s, v, code, fuel) ==
  LET mk(x) == LET r == NewNode(m, s, x) IN [r |-> "ok", m |-> r.m, n |-> r.n] IN
  IF fuel = 0 THEN [r |-> "oos"]
  ELSE CASE v.t = "int" -> mk([k |-> "int", v |-> v.v])
         [] v.t = "bool" -> mk([k |-> "bool", v |-> v.v])
         [] v.t = "flt" -> mk([k |-> "flt", v |-> v.v, e |-> v.e])
         [] v.t = "str" -> mk([k |-> "str", v |-> v.v])
         [] v.t = "sym" -> LET y == NewNode(m, s, [k |-> "id", v |-> v.v])
                               i == NewNode(y.m, s, [k |-> "id", v |-> "__quote"])
                               x == NewNode(i.m, s, [k |-> "list", c |-> <<i.n, y.n>>])
                           IN IF code THEN [r |-> "ok", m |-> y.m, n |-> y.n] ELSE [r |-> "ok", m |-> x.m, n |-> x.n]
         [] v.t = "nil" -> mk([k |-> "list", c |-> <<>>])
         [] v.t = "cons" ->
              IF code THEN
                LET e == Elems(m.heap, v, 60) IN
                IF ~e.ok THEN [r |-> IF Improper(m.heap, v, 60) THEN "err" ELSE "oos"]
                ELSE LET q == FormSeq(m, s, e.e, fuel - 1) IN
                     IF q.r # "ok" THEN q ELSE LET x == NewNode(q.m, s, [k |-> "list", c |-> q.c]) IN [r |-> "ok", m |-> x.m, n |-> x.n]
              ELSE LET a == Form(m, s, m.heap[v.v].a, code, fuel - 1) IN
                   IF a.r # "ok" THEN a
                   ELSE LET d == Form(a.m, s, m.heap[v.v].d, code, fuel - 1) IN
                        IF d.r # "ok" THEN d
                        ELSE LET i == NewNode(d.m, s, [k |-> "id", v |-> "__cons"])
                                 x == NewNode(i.m, s, [k |-> "list", c |-> <<i.n, a.n, d.n>>])
                             IN [r |-> "ok", m |-> x.m, n |-> x.n]
         [] v.t = "type" -> [r |-> "oos"]
         [] v.t = "vec" -> [r |-> IF code THEN "err" ELSE "oos"]
         [] OTHER -> [r |-> "err"]
FormSeq(m, s, e, fuel) ==
  IF e = <<>> THEN [r |-> "ok", m |-> m, c |-> <<>>]
  ELSE LET a == Form(m, s, Head(e), TRUE, fuel) IN
       IF a.r # "ok" THEN a
       ELSE LET q == FormSeq(a.m, s, Tail(e), fuel) IN
            IF q.r # "ok" THEN q ELSE [r |-> "ok", m |-> q.m, c |-> <<a.n>> \o q.c]

CompileError(m) ==
  [Emit(m, "X err") EXCEPT !.ctl = [t |-> "next"], !.ph = "rt", !.glob = m.cg, !.cg = m.glob, !.xk = <<>>, !.kont = <<>>]

(* Expand the forms of n at the positions ps, then do `after`.  sc: the form is a scope; name, md: for `after`. *)
Kids(m, n, c, ps, ops_, sc, after, name) ==
  LET fr == [f |-> "kids", n |-> n, c |-> c, ps |-> ps, i |-> 1, ops |-> ops_, after |-> after, name |-> name, sc |-> sc,
             md |-> m.md, xr |-> m.xr, xc |-> m.xc, ce |-> m.ce]
  IN Expanded(XPush(m, fr), 0)

(* Whether compiling the form has no effect besides the code: it is well formed and has no macro calls or compile-time code. *)
RECURSIVE Plain_(_, _, _)
Plain_(nd, n, names) ==
  LET x == nd[n] IN
  \/ x.k # "list" \/ x.c = <<>>
  \/ ~(nd[x.c[1]].k = "id" /\ nd[x.c[1]].v \in names) /\ \A i \in 1..Len(x.c) : Plain_(nd, x.c[i], names)
Inert(m, nd, n) ==
  /\ WF(nd, n) = "ok"
  /\ Plain_(nd, n, {m.ste[i].n : i \in 1..Len(m.ste)} \cup {y \in DOMAIN Keyword : Keyword[y] \in {"defmacro", "comptime"}})

ExpandStep(m, s) ==
  LET n == m.ctl.n
      nd == Nodes(m, s)
      x == nd[n]
  IN IF x.k # "list" \/ x.c = <<>> THEN Expanded(m, n)
     ELSE IF nd[x.c[1]].k # "id" THEN Kids(m, n, x.c, [i \in 1..Len(x.c) |-> i], {}, TRUE, "", "")
     ELSE LET name == nd[x.c[1]].v
              e == LookStatic(m.ste, StaticTop(m), name)
              kw == IF e = 0 /\ name \notin CompNames /\ name \in Keywords THEN Keyword[name] ELSE ""
              sh == Shape(nd, n, kw)
              inner == [m EXCEPT !.md = "c"]
          IN IF e # 0 /\ m.ste[e].k = "macro" THEN
               (* call the macro on the arguments as they are written *)
               LET q == QuoteSeq(m, nd, Tail(x.c))
                   f == m.locs[m.ste[e].l]
                   as == Elems(q.m.heap, q.v, 200).e
               IN Call([XPush(q.m, [f |-> "macro"]) EXCEPT !.kont = <<>>, !.env = m.ce, !.fd = 0], s, f, as)
             ELSE IF sh.w = "oos" THEN OutOfScope(m)
             ELSE IF sh.w = "err" THEN CompileError(m)
             ELSE IF \E i \in Dead(nd, n, kw) : ~Inert(m, nd, x.c[i]) THEN OutOfScope(m)
             ELSE CASE kw = "lambda" -> Kids(Declare(m, m.md, "self", "fun", 0), n, x.c, sh.k, sh.o, TRUE, "lambda", "")
                    [] kw = "defun" -> Kids(Declare(m, m.md, "self", "fun", 0), n, x.c, sh.k, sh.o, TRUE, "defun", nd[x.c[2]].v)
                    [] kw = "defmacro" ->
                         IF m.md = "c" THEN CompileError(m)
                         ELSE Kids(Declare(inner, "c", "self", "fun", 0), n, x.c, sh.k, sh.o, TRUE, "defmacro", nd[x.c[2]].v)
                    [] kw = "comptime" ->
                         (* inside compile-time code it changes nothing; declarations there are not defined *)
                         IF m.md = "c" THEN
                           IF \E i \in 2..Len(x.c) : Declares(nd, x.c[i]) THEN OutOfScope(m)
                           ELSE Kids(m, n, x.c, sh.k, sh.o, FALSE, "comptime2", "")
                         ELSE IF Len(x.c) = 1 THEN LET r == NewNode(m, s, [k |-> "list", c |-> <<>>]) IN Expanded(r.m, r.n)
                         ELSE Kids(inner, n, x.c, sh.k, sh.o, FALSE, "comptime", "")
                    [] kw \in {"when", "unless", "while", "if"} -> Kids(m, n, x.c, sh.k, sh.o, TRUE, "", "")
                    [] OTHER -> Kids(m, n, x.c, sh.k, sh.o, FALSE, "", "")

(* Everything of a form is expanded. *)
KidsDone(m, s, fr) ==       \* m: the frame popped
  LET nd == Nodes(m, s)
      same == fr.c = nd[fr.n].c
      (* a scope whose first form has become a name is still a scope *)
      scope == nd[fr.n].k = "list" /\ nd[nd[fr.n].c[1]].k # "id" /\ nd[fr.c[1]].k = "id"
      zl == NewNode(m, s, [k |-> "list", c |-> <<>>])
      r == IF same THEN [m |-> m, n |-> fr.n]
           ELSE IF scope THEN NewNode(zl.m, s, [k |-> "list", c |-> <<zl.n>> \o fr.c])
           ELSE NewNode(m, s, [k |-> "list", c |-> fr.c])
      m1 == IF fr.sc THEN [r.m EXCEPT !.xr = fr.xr, !.xc = fr.xc, !.ce = fr.ce] ELSE r.m
      nd1 == Nodes(m1, s)
      (* Kids was called with self declared; undo that, too *)
      out(mm, md) == IF md = "r" THEN [mm EXCEPT !.xr = mm.ste[fr.xr].p] ELSE [mm EXCEPT !.xc = mm.ste[fr.xc].p]
  IN CASE fr.after = "" -> Expanded(m1, r.n)
       [] fr.after = "lambda" -> Expanded(out(m1, fr.md), r.n)
       [] fr.after = "defun" -> Expanded(Declare(out(m1, fr.md), fr.md, fr.name, "fun", 0), r.n)
       [] fr.after = "defmacro" ->
            LET m2 == [out(m1, "c") EXCEPT !.md = "r"]
                m3 == Alloc(m2, Lambda([m2 EXCEPT !.env = m2.ce, !.fd = 0], nd1, nd1[r.n].c[3], SubSeq(nd1[r.n].c, 4, Len(nd1[r.n].c))))
                m4 == Bind([m3 EXCEPT !.env = m2.ce, !.fd = 0], fr.name, "fun", Clo(NewAddr(m2)))
                m5 == [m4 EXCEPT !.ce = m4.env]
                m6 == Declare(Declare(m5, "r", fr.name, "macro", Len(m5.locs)), "c", fr.name, "macro", Len(m5.locs))
                nl == NewNode(m6, s, [k |-> "list", c |-> <<>>])
            IN Expanded(nl.m, nl.n)
       [] fr.after = "comptime" ->
            Ret([XPush([m1 EXCEPT !.md = "r"], [f |-> "comptime"]) EXCEPT
                   !.env = m1.ce, !.fd = 0, !.kont = <<[f |-> "seq", ns |-> Tail(fr.c), env |-> m1.ce, sc |-> FALSE]>>], Nil)
       [] fr.after = "comptime2" ->
            LET i == NewNode(m1, s, [k |-> "id", v |-> "__noscope"])
                z == NewNode(i.m, s, [k |-> "list", c |-> <<i.n>> \o Tail(fr.c)])
            IN IF Len(fr.c) = 1 THEN OutOfScope(m) ELSE Expanded(z.m, z.n)

ExpandedStep(m, s) ==
  IF m.xk = <<>> THEN       \* the whole program
    Eval([Emit(m, "X ok") EXCEPT !.ph = "rt", !.glob = m.cg, !.cg = m.glob, !.env = 0, !.fd = 0, !.kont = <<>>], m.ctl.n)
  ELSE LET k == Len(m.xk)
           fr == m.xk[k]
           first == m.ctl.n = 0
           fr1 == IF first THEN fr ELSE [fr EXCEPT !.c[fr.ps[fr.i]] = m.ctl.n, !.i = @ + 1]
           bad == ~first /\ fr.ps[fr.i] \in fr.ops /\ Declares(Nodes(m, s), m.ctl.n)
       IN IF bad THEN OutOfScope(m)
          ELSE IF fr1.i > Len(fr1.ps) THEN KidsDone([m EXCEPT !.xk = SubSeq(@, 1, k - 1)], s, fr1)
          ELSE LET nx == fr1.c[fr1.ps[fr1.i]] IN
               IF fr1.ps[fr1.i] \in fr1.ops /\ Declares(Nodes(m, s), nx) THEN OutOfScope(m)
               ELSE Expand([m EXCEPT !.xk[k] = fr1], nx)

(* Compile-time code has come to its value. *)
CompDone(m, s) ==
  LET k == Len(m.xk)
      fr == m.xk[k]
      m1 == [m EXCEPT !.xk = SubSeq(@, 1, k - 1)]
      f == Form(m1, s, m.ctl.v, fr.f = "macro", 40)
  IN CASE f.r = "oos" -> OutOfScope(m)
       [] f.r = "err" -> CompileError(m)
       [] OTHER -> IF fr.f = "macro" THEN Expand(f.m, f.n) ELSE Expanded([f.m EXCEPT !.ce = m.env], f.n)

(***************************************************************************)
(* Operations of a session                                                 *)
(***************************************************************************)
(* Load and run the program n. *)
Load(m, s, n, compiles) ==
  IF compiles THEN      \* macros, compile-time code, or keywords that may be redefined
    Expand([m EXCEPT !.ph = "ct", !.glob = m.cg, !.cg = m.glob, !.xk = <<>>, !.md = "r", !.xr = 0, !.xc = 0, !.ce = 0], n)
  ELSE LET w == WF(Nodes(m, s), n) IN
       IF w = "oos" THEN OutOfScope(m)
       ELSE IF w = "err" THEN Emit(m, "X err")
       ELSE Eval([Emit(m, "X ok") EXCEPT !.env = 0, !.fd = 0, !.kont = <<>>], n)

NextOp(m, s) ==
  IF m.pc > Len(s.ops) THEN [m EXCEPT !.st = "done"]
  ELSE LET o == s.ops[m.pc]
           m1 == [m EXCEPT !.pc = @ + 1]
       IN CASE o.o = "X" /\ s.inf ->
                 (* the parentheses are inferred first *)
                 LET f == Inference!Infer(Nodes(m, s), o.n) IN
                 IF f.st.r = "oos" THEN OutOfScope(m1)
                 ELSE IF f.st.r = "err" THEN Emit(m1, "X err")
                 ELSE Load([m1 EXCEPT !.xn = SubSeq(f.st.nd, Len(s.nodes) + 1, Len(f.st.nd))], s, f.n, o.m)
            [] o.o = "X" -> Load(m1, s, o.n, o.m)
            (* A text this module gives no meaning to: it may be refused, fail or run, and change any global.  Whatever it
               does, it is over afterwards. *)
            [] o.o = "U" -> [Emit(m1, "U") EXCEPT !.hv = TRUE, !.sl = -1, !.tm = <<>>]
            [] o.o = "R" -> [Emit(m1, "R") EXCEPT !.sl = 0]
            [] o.o = "P" -> [Emit(m1, "P") EXCEPT !.sl = 0]
            [] o.o = "G" -> Emit(m1, "G")

ChunkEnd(m, s) ==        \* a value reached the bottom of the continuation
  LET p == Pr(m.heap, Names(m, s), m.ctl.v, Full(m))
      sl == IF m.sl < 0 THEN -1 ELSE m.sl + 1
      m1 == Emit([m EXCEPT !.tm = p.b.tm], "Q ok " \o p.s)
      m2 == IF sl < 0 THEN m1 ELSE Emit(m1, "L " \o ToString(sl))
  IN IF p.b.n < 0 THEN OutOfScope(m) ELSE [m2 EXCEPT !.ctl = [t |-> "next"], !.sl = sl]

ChunkFail(m) == [Emit(m, "Q err") EXCEPT !.ctl = [t |-> "next"], !.sl = -1, !.kont = <<>>]

Step(m, s) ==
  IF m.n >= MaxSteps \/ Len(m.kont) > 600 \/ Len(m.heap) > 3000 THEN OutOfScope(m)
  ELSE CASE m.ctl.t = "next" -> NextOp(m, s)
         [] m.ctl.t = "ev" -> EvalStep(m, s)
         [] m.ctl.t = "x" -> ExpandStep(m, s)
         [] m.ctl.t = "xd" -> ExpandedStep(m, s)
         [] m.ctl.t = "fail" -> IF m.ph = "ct" THEN CompileError(m) ELSE ChunkFail(m)
         [] m.ctl.t = "va" -> IF m.kont # <<>> THEN ReturnStep(m, s) ELSE IF m.ph = "ct" THEN CompDone(m, s) ELSE ChunkEnd(m, s)

(***************************************************************************)
(* Verdicts                                                                *)
(***************************************************************************)
RECURSIVE Join(_)
Join(q) == IF q = <<>> THEN "" ELSE Head(q) \o "|" \o Join(Tail(q))

VARIABLES sid, m

vars == <<sid, m>>

Init == sid \in 1..Len(Sessions) /\ m = Start


IsPrefix_(a, b) == Len(a) <= Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i]

(* kind "full": the run must show exactly what the machine shows.  kind "oom": the run was given a small heap and ended
   by reporting exhaustion; what it showed before that must be a prefix. *)
Matches(o, out) == IF o.kind = "full" THEN o.ev = out ELSE IsPrefix_(o.ev, out)

Report(m1, s) ==
  IF m1.st = "oos" THEN PrintT("@@V " \o s.id \o " oos " \o ToString(m1.n))
  ELSE LET bad == {i \in 1..Len(s.obs) : ~Matches(s.obs[i], m1.out)} IN
       IF bad = {} THEN PrintT("@@V " \o s.id \o " ok " \o ToString(m1.n) \o " " \o ToString(Len(m1.heap)))
       ELSE /\ PrintT("@@V " \o s.id \o " bad " \o ToString(m1.n) \o " " \o ToString(CHOOSE i \in bad : \A j \in bad : i <= j))
            /\ PrintT("@@E " \o s.id \o " " \o Join(m1.out))

Next ==
  /\ m.st = "run"
  /\ LET s == Sessions[sid]
         m1 == [Step(m, s) EXCEPT !.n = @ + 1]
     IN /\ m' = m1
        /\ (m1.st # "run" => Report(m1, s))
  /\ UNCHANGED sid

Spec == Init /\ [][Next]_vars

View == <<sid, m.n>>

(***************************************************************************)
(* Safety of the machine itself, checked in every state                    *)
(***************************************************************************)
ValOK(v) == CASE v.t \in {"cons", "clo", "comp"} -> v.v \in 1..Len(m.heap)
              [] v.t = "vec" -> v.v \in 0..Len(m.heap)
              [] OTHER -> TRUE
TypeOK ==
  /\ m.st \in {"run", "done", "oos"}
  /\ m.env \in 0..Len(m.envs)
  /\ (m.ctl.t = "va" => ValOK(m.ctl.v))
  /\ (m.n % 16 = 0 =>
       /\ \A i \in 1..Len(m.locs) : ValOK(m.locs[i])
       /\ \A i \in 1..Len(m.envs) : m.envs[i].l \in 1..Len(m.locs) /\ m.envs[i].p < i)
================================================================================
