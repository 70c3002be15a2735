------------------------------- MODULE DuckApi -------------------------------
(* The embedding interface as a stack machine (duckVM.h, docs/api.md).                                             *)
(* The state is the value stack the host and programs share, the objects values refer to, the global variables, the *)
(* types handed out and the host objects.  Do(m, o, x) is the state and the result of one operation; an operation   *)
(* that is refused leaves the state as it was.  The collector is not in the state: which objects remain is a matter *)
(* of what can be reached (Reach), and when they go is open.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

(* ---- values ---- *)
Nil        == [k |-> "L", r |-> 0]
List(r)    == [k |-> "L", r |-> r]
Scalar(t, s) == [k |-> "x", t |-> t, s |-> s]
Bool(b)    == Scalar("bool", IF b THEN "b1" ELSE "b0")
IntV(n)    == Scalar("integer", "i" \o ToString(n))
Type(n)    == Scalar("type", "t" \o ToString(n))
Str(s)     == [k |-> "s", s |-> s]
Sym(i, s, named) == [k |-> "y", i |-> i, s |-> s, named |-> named]
Vec(r, o)  == [k |-> "v", r |-> r, o |-> o]
Comp(r)    == [k |-> "m", r |-> r]
Clo(c, n, va, r) == [k |-> "k", c |-> c, n |-> n, va |-> va, r |-> r]
Fun(c)     == [k |-> "h", h |-> c]
User(d)    == [k |-> "u", d |-> d]

(* ---- objects: the heap is a sequence, a reference an index ---- *)
OCons(a, d)    == [t |-> "cons", a |-> a, d |-> d]
OVec(e)        == [t |-> "vec", e |-> e]
OComp(n, v, f) == [t |-> "comp", n |-> n, v |-> v, f |-> f]
OVars(c)       == [t |-> "vars", c |-> c]        \* the captured variables of a closure
OVar(v)        == [t |-> "var", v |-> v]

New(m, o)   == [m EXCEPT !.heap = Append(@, o)]
Last1(m)    == Len(m.heap)
Push(m, v)  == [m EXCEPT !.stk = Append(@, v)]
Drop(m, n)  == [m EXCEPT !.stk = SubSeq(@, 1, Len(@) - n)]
Top(m)      == m.stk[Len(m.stk)]
At(m, i)    == IF i < 0 THEN Len(m.stk) + i + 1 ELSE i + 1
Good(m, i)  == At(m, i) \in 1..Len(m.stk)

(* ---- results ---- *)
Ok(m)       == [r |-> "ok", m |-> m, out |-> "-"]
Out(m, s)   == [r |-> "ok", m |-> m, out |-> s]
Free(m)      == [r |-> "ok", m |-> m, out |-> "*"]
Err(m)      == [r |-> "err", m |-> m, out |-> "-"]
Unknown(m)  == [r |-> "oos", m |-> m, out |-> "-"]
Truth(m, b) == Out(m, IF b THEN "true" ELSE "false")

RECURSIVE Bytes(_)
Bytes(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN ToString(s[1]) ELSE ToString(s[1]) \o "." \o Bytes(Tail(s))

VLen(m, v)  == IF v.r = 0 THEN 0 ELSE IF v.o >= Len(m.heap[v.r].e) THEN 0 ELSE Len(m.heap[v.r].e) - v.o
TypeOf(v)   == CASE v.k = "L" -> "list" [] v.k = "x" -> v.t [] v.k = "s" -> "string" [] v.k = "y" -> "symbol" [] v.k = "v" -> "vector"
                 [] v.k = "m" -> "composite" [] v.k = "k" -> "closure" [] v.k = "h" -> "function" [] v.k = "u" -> "user"
Vars(m, v)  == IF v.r = 0 THEN <<>> ELSE m.heap[v.r].c

(* The conses of a list, in order, stopping at a cons seen before. *)
RECURSIVE Spine(_, _, _)
Spine(m, v, acc) == IF v.k # "L" \/ v.r = 0 THEN [c |-> acc, cyclic |-> FALSE]
                    ELSE IF Contains(acc, v.r) THEN [c |-> acc, cyclic |-> TRUE]
                    ELSE Spine(m, m.heap[v.r].d, Append(acc, v.r))
(* The cons n steps down, or 0. *)
RECURSIVE Nth(_, _, _)
Nth(m, v, n) == IF v.k # "L" \/ v.r = 0 THEN 0 ELSE IF n = 0 THEN v.r ELSE Nth(m, m.heap[v.r].d, n - 1)

(* ---- sequences ---- *)
Element(m, v, n) ==
  CASE n < 0 -> Err(m)
    [] v.k = "L" -> LET c == Nth(m, v, n) IN IF c = 0 THEN Err(m) ELSE Ok(Push(m, m.heap[c].a))
    [] v.k = "v" -> IF n >= VLen(m, v) THEN Err(m) ELSE Ok(Push(m, m.heap[v.r].e[v.o + n + 1]))
    [] v.k = "s" -> IF n >= Len(v.s) THEN Err(m) ELSE Ok(Push(m, IntV(v.s[n + 1])))
    [] v.k = "k" -> LET c == Vars(m, v) IN IF n >= Len(c) THEN Err(m) ELSE Ok(Push(m, m.heap[c[n + 1]].v))
    [] OTHER -> Err(m)
First(m, v) == IF v = Nil THEN Ok(Push(m, Nil)) ELSE Element(m, v, 0)
Rest(m, v) ==
  CASE v = Nil -> Ok(Push(m, Nil))
    [] v.k = "L" -> Ok(Push(m, m.heap[v.r].d))
    [] v.k = "v" -> IF VLen(m, v) = 0 THEN Err(m) ELSE Ok(Push(m, Vec(v.r, v.o + 1)))
    [] v.k = "s" -> IF v.s = <<>> THEN Err(m) ELSE Ok(Push(m, Str(Tail(v.s))))
    [] OTHER -> Err(m)
(* The interface says closures are refused here, the code stores into the captured variable: either, whole. *)
SetElement(m, v, n, x, done) ==
  CASE n < 0 -> Err(m)
    [] v.k = "L" -> LET c == Nth(m, v, n) IN IF c = 0 THEN Err(m) ELSE Ok([m EXCEPT !.heap[c].a = x])
    [] v.k = "v" -> IF n >= VLen(m, v) THEN Err(m) ELSE Ok([m EXCEPT !.heap[v.r].e[v.o + n + 1] = x])
    [] v.k = "k" -> LET c == Vars(m, v) IN
                    IF n >= Len(c) \/ done # "ok" THEN Err(m)
                    ELSE Ok([m EXCEPT !.heap[c[n + 1]].v = x, !.fuzzy = m.fuzzy \cup DOMAIN m.held])
    [] OTHER -> Err(m)
SetRest(m, v, x) == IF v.k = "L" /\ v.r # 0 THEN Ok([m EXCEPT !.heap[v.r].d = x]) ELSE Err(m)
Length(m, v) ==
  CASE v.k = "L" -> LET s == Spine(m, v, <<>>) IN IF s.cyclic THEN Err(m) ELSE Out(m, "i" \o ToString(Len(s.c)))
    [] v.k = "v" -> Out(m, "i" \o ToString(VLen(m, v)))
    [] v.k = "s" -> Out(m, "i" \o ToString(Len(v.s)))
    [] v.k = "k" -> Out(m, "i" \o ToString(Len(Vars(m, v))))
    [] OTHER -> Err(m)
Empty(m, v) ==
  CASE v.k = "L" -> v.r = 0
    [] v.k = "v" -> VLen(m, v) = 0
    [] v.k = "s" -> v.s = <<>>
    [] v.k = "k" -> Vars(m, v) = <<>>
    [] OTHER -> FALSE

(* ---- calls: the functions the harness defines ---- *)
Arity == [f0 |-> 1, f1 |-> 2, f2 |-> 1, f3 |-> 1, f4 |-> 0, f5 |-> 1, f5i |-> 1, f6 |-> 1, f7 |-> 2, f8 |-> 2, f8i |-> 0, f9 |-> 2, f10 |-> 2,
          f11 |-> 1, f12 |-> 1, f12i |-> 0]
Named == DOMAIN Arity \ {"f5i", "f8i", "f12i"}
Variadic(c) == c = "f2"
CArity == [h0 |-> 0, h1 |-> 1, h2 |-> 0, h3 |-> 2]
Yes(m, v) == [r |-> "ok", m |-> m, v |-> v]
No(m)     == [r |-> "err", m |-> m, v |-> Nil]
Odd(m)    == [r |-> "oos", m |-> m, v |-> Nil]
NewCons(m, a, d) == LET n == New(m, OCons(a, d)) IN Yes(n, List(Last1(n)))
RECURSIVE MkList(_, _)
MkList(m, vs) == IF vs = <<>> THEN Yes(m, Nil)
                 ELSE LET t == MkList(m, Tail(vs)) IN NewCons(t.m, vs[1], t.v)
(* car and cdr as programs see them: they do not mind an empty sequence *)
Car(m, v) == CASE v = Nil -> Yes(m, Nil)
               [] v.k = "v" /\ VLen(m, v) = 0 -> Yes(m, Vec(0, 0))
               [] v.k = "s" /\ v.s = <<>> -> Yes(m, v)
               [] v.k \in {"L", "v", "s"} -> LET e == Element(m, v, 0) IN Yes(m, Top(e.m))
               [] OTHER -> No(m)
Cdr(m, v) == CASE v.k = "v" /\ VLen(m, v) = 0 -> Yes(m, Vec(0, 0))
               [] v.k = "s" /\ v.s = <<>> -> Yes(m, v)
               [] v.k \in {"L", "v", "s"} -> LET e == Rest(m, v) IN Yes(m, Top(e.m))
               [] OTHER -> No(m)
RECURSIVE Apply(_, _, _, _)
Apply(m, f, as, d) ==
  IF d = 0 THEN Odd(m)
  ELSE IF f.k = "m" THEN Apply(m, m.heap[f.r].f, as, d - 1)
  ELSE IF f.k = "h" THEN
    IF Len(as) # CArity[f.h] THEN Odd(m)
    ELSE CASE f.h = "h0" -> Yes(m, IntV(42))
           [] f.h = "h1" -> NewCons(m, as[1], as[1])
           [] f.h = "h2" -> No(m)
           [] f.h = "h3" -> LET x == Apply(m, as[1], <<as[2]>>, d - 1) IN IF x.r = "err" THEN Yes(x.m, Bool(FALSE)) ELSE x
  ELSE IF f.k # "k" THEN No(m)
  ELSE IF (Variadic(f.c) /\ Len(as) < Arity[f.c]) \/ (~Variadic(f.c) /\ Len(as) # Arity[f.c]) THEN No(m)
  ELSE CASE f.c = "f0" -> Yes(m, as[1])
         [] f.c = "f1" -> NewCons(m, as[1], as[2])
         [] f.c = "f2" -> MkList(m, as)
         [] f.c = "f3" -> Yes([m EXCEPT !.glob["g0"] = as[1]], as[1])
         [] f.c = "f4" -> Yes(m, m.glob["g0"])
         [] f.c = "f5" -> LET x == New(m, OVar(as[1]))
                              y == New(x, OVars(<<Last1(x)>>)) IN Yes(y, Clo("f5i", 1, FALSE, Last1(y)))
         [] f.c = "f5i" -> LET c == m.heap[f.r].c[1] IN Yes([m EXCEPT !.heap[c].v = as[1]], m.heap[c].v)
         [] f.c = "f6" -> No(m)
         [] f.c = "f7" -> Apply(m, as[1], <<as[2]>>, d - 1)
         [] f.c = "f8" -> LET x == New(New(m, OVar(as[1])), OVar(as[2]))
                              y == New(x, OVars(<<Last1(x) - 1, Last1(x)>>)) IN Yes(y, Clo("f8i", 0, FALSE, Last1(y)))
         [] f.c = "f8i" -> LET c == m.heap[f.r].c IN NewCons(m, m.heap[c[1]].v, m.heap[c[2]].v)
         [] f.c = "f9" -> IF as[1].k \in {"L", "v"} /\ as[1] # Nil
                          THEN LET e == SetElement(m, as[1], 0, as[2], "ok") IN IF e.r = "ok" THEN Yes(e.m, as[1]) ELSE No(m)
                          ELSE No(m)
         [] f.c = "f10" -> LET x == Apply(m, Fun("h3"), as, d - 1) IN IF x.r # "ok" THEN x ELSE MkList(x.m, <<IntV(1), x.v, IntV(2)>>)
         [] f.c = "f12" -> LET x == New(m, OVar(IntV(9)))
                               y == New(x, OVars(<<Last1(x)>>)) IN No([y EXCEPT !.glob["g1"] = Clo("f12i", 0, FALSE, Last1(y))])
         [] f.c = "f12i" -> Yes(m, m.heap[m.heap[f.r].c[1]].v)
         [] f.c = "f11" -> LET x == Car(m, as[1])
                               y == Cdr(m, as[1]) IN IF x.r = "ok" THEN NewCons(m, x.v, y.v) ELSE No(m)

(* ---- operations ---- *)
(* o: the operation with its arguments; x: what the code did, where the interface leaves a choice *)
Store(r, v, m) == \* a host object stored into another object (not into a captured variable) is destroyed once, when that place is gone
  IF r.r = "ok" /\ Top(m).k = "u" /\ v.k # "k" THEN [r EXCEPT !.m.made = [@ EXCEPT ![Top(m).d] = @ + 1]] ELSE r
Do(m, o, x) ==
  LET n == Len(m.stk) IN
  CASE o.op = "push" -> IF Good(m, o.a) THEN Ok(Push(m, m.stk[At(m, o.a)])) ELSE Err(m)
    [] o.op = "pop" -> IF n = 0 THEN Err(m) ELSE Ok(Drop(m, 1))
    [] o.op = "popSeveral" -> IF o.a > n THEN Err(m) ELSE Ok(Drop(m, o.a))
    [] o.op \in {"popAll", "softReset"} -> Ok(Drop(m, n))
    [] o.op = "stackLength" -> Out(m, ToString(n))
    [] o.op = "gc" -> Ok(m)
    [] o.op = "pushBoolean" -> Ok(Push(m, Bool(FALSE)))
    [] o.op = "pushInteger" -> Ok(Push(m, IntV(0)))
    [] o.op = "pushFloat" -> Ok(Push(m, Scalar("float", "f0000000000000000")))
    [] o.op = "pushNil" -> Ok(Push(m, Nil))
    [] o.op = "pushCons" -> LET c == NewCons(m, Nil, Nil) IN Ok(Push(c.m, c.v))
    [] o.op = "pushVector" -> IF o.a = 0 THEN Ok(Push(m, Vec(0, 0)))
                              ELSE LET h == New(m, OVec([i \in 1..o.a |-> Nil])) IN Ok(Push(h, Vec(Last1(h), 0)))
    [] o.op = "pushString" -> Ok(Push(m, Str(o.bs)))
    [] o.op = "pushSymbol" -> Ok(Push(m, Sym(o.a, o.bs, TRUE)))
    [] o.op = "pushCompressedSymbol" -> Ok(Push(m, Sym(o.a, <<>>, FALSE)))
    [] o.op = "pushNewType" -> IF x.nt \in m.types \/ x.nt < m.base THEN [Ok(m) EXCEPT !.r = "stale type"]
                               ELSE Ok([Push(m, Type(x.nt)) EXCEPT !.types = @ \cup {x.nt}])
    [] o.op = "pushExistingType" -> Ok(Push(m, Type(o.a)))
    [] o.op = "pushComposite" -> LET h == New(m, OComp(o.a, Nil, Nil)) IN Ok(Push(h, Comp(Last1(h))))
    [] o.op = "pushGlobal" -> IF o.s \in DOMAIN m.glob THEN Ok(Push(m, m.glob[o.s])) ELSE Err(m)
    [] o.op = "call" ->
         IF n < o.a THEN Err(m)
         ELSE IF n <= o.b THEN Err(Drop(m, o.a))          \* whatever the reason, only the arguments are gone
         ELSE LET as == SubSeq(m.stk, n - o.a + 1, n)
                  c == Apply(Drop(m, o.a), m.stk[n - o.b], as, 12)
                  f == [c.m EXCEPT !.fuzzy = m.fuzzy \cup DOMAIN m.held] IN
              CASE c.r = "ok" -> Ok(Push(f, c.v))
                [] c.r = "err" -> Err(f)
                [] OTHER -> Unknown(m)
    [] OTHER ->
  IF n = 0 THEN (IF o.op = "pushUser" /\ o.b = 0 THEN Ok([Push(m, User(o.a)) EXCEPT !.held = (o.a :> 0) @@ @, !.made = @ @@ (o.a :> 0)]) ELSE Err(m))
  ELSE LET v == Top(m)
           is(t) == v.k = "x" /\ v.t = t
           set(t, s) == IF is(t) THEN Ok([m EXCEPT !.stk[n] = Scalar(t, s)]) ELSE Err(m)
           copy(t) == IF is(t) THEN Out(m, v.s) ELSE Err(m) IN
  CASE o.op = "copyFromTop" -> IF Good(m, o.a) THEN Ok([m EXCEPT !.stk[At(m, o.a)] = v]) ELSE Err(m)
    [] o.op = "typeOf" -> Out(m, TypeOf(v))
    [] o.op = "setBoolean" -> set("bool", IF o.a = 1 THEN "b1" ELSE "b0")
    [] o.op = "copyBoolean" -> copy("bool")
    [] o.op = "setInteger" -> set("integer", "i" \o o.s)
    [] o.op = "copySignedInteger" -> copy("integer")
    [] o.op = "copyUnsignedInteger" -> IF is("integer") /\ x.neg THEN Free(m) ELSE copy("integer")
    [] o.op = "setFloat" -> set("float", "f" \o o.s)
    [] o.op = "copyFloat" -> copy("float")
    [] o.op = "copyType" -> copy("type")
    [] o.op = "copyString" -> IF v.k = "s" THEN Out(m, "s" \o Bytes(v.s)) ELSE Err(m)
    [] o.op = "copySymbolName" -> IF v.k = "y" THEN Out(m, "s" \o Bytes(v.s)) ELSE Err(m)
    [] o.op = "copySymbolId" -> IF v.k = "y" THEN Out(m, "i" \o ToString(v.i)) ELSE Err(m)
    [] o.op = "copyCompositeType" -> IF v.k = "m" THEN Out(m, "t" \o ToString(m.heap[v.r].n)) ELSE Err(m)
    [] o.op = "pushCompositeValue" -> IF v.k = "m" THEN Ok(Push(m, m.heap[v.r].v)) ELSE Err(m)
    [] o.op = "pushCompositeFunction" -> IF v.k = "m" THEN Ok(Push(m, m.heap[v.r].f)) ELSE Err(m)
    [] o.op \in {"setCompositeValue", "setCompositeFunction"} ->
         IF ~Good(m, o.a) THEN Err(m)
         ELSE LET c == m.stk[At(m, o.a)] IN
              IF c.k # "m" THEN Err(m)
              ELSE Store(Ok(IF o.op = "setCompositeValue" THEN [m EXCEPT !.heap[c.r].v = v] ELSE [m EXCEPT !.heap[c.r].f = v]), c, m)
    [] o.op = "copyClosureName" -> IF v.k = "k" THEN Ok(m) ELSE Err(m)
    [] o.op = "closureBytecode" -> IF v.k = "k" THEN Out(m, "bytecode") ELSE Err(m)
    [] o.op = "copyClosureArity" -> IF v.k = "k" THEN Out(m, "i" \o ToString(v.n)) ELSE Err(m)
    [] o.op = "copyClosureIsVariadic" -> IF v.k = "k" THEN Truth(m, v.va) ELSE Err(m)
    [] o.op \in {"pushCar", "pushFirst"} -> First(m, v)
    [] o.op \in {"pushCdr", "pushRest"} -> Rest(m, v)
    [] o.op = "pushElement" -> Element(m, v, o.a)
    [] o.op \in {"setCar", "setFirst"} -> IF Good(m, o.a) THEN Store(SetElement(m, m.stk[At(m, o.a)], 0, v, x.r), m.stk[At(m, o.a)], m) ELSE Err(m)
    [] o.op \in {"setCdr", "setRest"} -> IF Good(m, o.a) THEN Store(SetRest(m, m.stk[At(m, o.a)], v), Nil, m) ELSE Err(m)
    [] o.op = "setElement" -> IF Good(m, o.b) THEN Store(SetElement(m, m.stk[At(m, o.b)], o.a, v, x.r), m.stk[At(m, o.b)], m) ELSE Err(m)
    [] o.op = "length" -> Length(m, v)
    [] o.op = "isNone" -> Truth(m, FALSE)
    [] o.op = "isBoolean" -> Truth(m, is("bool"))
    [] o.op = "isInteger" -> Truth(m, is("integer"))
    [] o.op = "isFloat" -> Truth(m, is("float"))
    [] o.op = "isType" -> Truth(m, is("type"))
    [] o.op = "isString" -> Truth(m, v.k = "s")
    [] o.op = "isSymbol" -> Truth(m, v.k = "y")
    [] o.op = "isComposite" -> Truth(m, v.k = "m")
    [] o.op = "isList" -> Truth(m, v.k = "L")
    [] o.op = "isNil" -> Truth(m, v = Nil)
    [] o.op = "isCons" -> Truth(m, v.k = "L" /\ v # Nil)
    [] o.op = "isVector" -> Truth(m, v.k = "v")
    [] o.op = "isClosure" -> Truth(m, v.k = "k")
    [] o.op = "isUser" -> Truth(m, v.k = "u")
    [] o.op = "isEmpty" -> Truth(m, Empty(m, v))
    [] o.op = "setGlobal" -> Store(Ok([m EXCEPT !.glob = (o.s :> v) @@ @]), Nil, m)
    [] o.op = "pushUser" -> IF o.b = 1 /\ (v.k # "L" \/ v = Nil) THEN Err(m)
                            ELSE Ok([Push(m, User(o.a)) EXCEPT !.held = (o.a :> (IF o.b = 1 THEN v.r ELSE 0)) @@ @, !.made = @ @@ (o.a :> 0)])
    [] o.op = "pushHeld" -> IF v.k = "u" THEN Ok(Push(m, List(m.held[v.d]))) ELSE Err(m)

Start(base) ==
  [stk |-> <<>>, heap |-> <<>>, types |-> {}, base |-> base, held |-> <<>>, made |-> <<>>, fuzzy |-> {},
   glob |-> [c \in Named |-> Clo(c, Arity[c], Variadic(c), 0)] @@ [h \in DOMAIN CArity |-> Fun(h)] @@ [g \in {"g0", "g1", "g2"} |-> Nil]]

(* ---- what the stack looks like from outside ---- *)
(* One token per value, in the order of a walk that numbers objects as it meets them. *)
RECURSIVE Walk(_, _, _, _)
Walk(m, w, seen, toks) ==
  IF w = <<>> THEN [seen |-> seen, toks |-> toks]
  ELSE LET v == w[1]
           at(r) == SelectInSeq(seen, LAMBDA y : y = r)
           go(r, t1, t2, kids) ==
             LET i == at(r) IN
             IF i # 0 THEN Walk(m, Tail(w), seen, Append(toks, t1 \o ToString(i) \o t2[1]))
             ELSE Walk(m, kids \o Tail(w), Append(seen, r), Append(toks, t1 \o ToString(Len(seen) + 1) \o t2[1]) \o Tail(t2))
           flat(t) == Walk(m, Tail(w), seen, Append(toks, t)) IN
       CASE v.k = "L" -> IF v.r = 0 THEN flat("L") ELSE go(v.r, "c", <<"">>, <<m.heap[v.r].a, m.heap[v.r].d>>)
         [] v.k = "x" -> flat(v.s)
         [] v.k = "s" -> flat("s" \o Bytes(v.s))
         [] v.k = "y" -> flat("y" \o ToString(v.i) \o (IF v.named THEN ":" \o Bytes(v.s) ELSE ""))
         [] v.k = "v" -> IF VLen(m, v) = 0 THEN flat("v0")
                         ELSE go(v.r, "v", <<"+" \o ToString(v.o), "#" \o ToString(Len(m.heap[v.r].e))>>, m.heap[v.r].e)
         [] v.k = "m" -> LET c == m.heap[v.r] IN go(v.r, "m", <<"", "t" \o ToString(c.n)>>, <<c.v, c.f>>)
         [] v.k = "k" -> LET p == "k" \o ToString(v.n) \o (IF v.va THEN "r/" ELSE "/") IN
                         IF v.r = 0 THEN flat(p \o "0")
                         ELSE go(v.r, p, <<"", "#" \o ToString(Len(m.heap[v.r].c))>>, [i \in DOMAIN m.heap[v.r].c |-> [k |-> "@", r |-> m.heap[v.r].c[i]]])
         [] v.k = "@" -> go(v.r, "@", <<"">>, <<m.heap[v.r].v>>)
         [] v.k = "h" -> flat(v.h)
         [] v.k = "u" -> flat("u" \o ToString(v.d))
Dump(m) == Walk(m, m.stk, <<>>, <<>>).toks

(* ---- what can be reached ---- *)
Stored(o) == CASE o.t = "cons" -> <<o.a, o.d>> [] o.t = "vec" -> o.e [] o.t = "comp" -> <<o.v, o.f>> [] o.t = "var" -> <<o.v>>
               [] o.t = "vars" -> [i \in DOMAIN o.c |-> [k |-> "@", r |-> o.c[i]]]
RefsOf(m, v) == CASE v.k \in {"L", "v", "m", "k", "@"} -> {v.r} \ {0} [] v.k = "u" -> {m.held[v.d]} \ {0} [] OTHER -> {}
RECURSIVE Close(_, _, _)
Close(m, todo, done) ==
  IF todo = {} THEN done
  ELSE LET next == UNION {UNION {RefsOf(m, v) : v \in Range(Stored(m.heap[r]))} : r \in todo}
           all == done \cup todo IN Close(m, next \ all, all)
Reach(m) == Close(m, (UNION {RefsOf(m, v) : v \in Range(m.stk)}) \cup (UNION {RefsOf(m, m.glob[g]) : g \in DOMAIN m.glob}), {})
(* places that hold host object d and can be reached *)
Places(m, R, d) ==
  MapThenSumSet(LAMBDA r : Cardinality({i \in DOMAIN Stored(m.heap[r]) : Stored(m.heap[r])[i] = User(d)}), R)
  + Cardinality({g \in DOMAIN m.glob : m.glob[g] = User(d)})
(* No more than this many cells of the heap are needed for what can be reached. *)
Cells(m) ==
  LET R == Reach(m) IN
  MapThenSumSet(LAMBDA r : 1 + 2 * Len(Stored(m.heap[r])), R) + Len(m.stk) + 3 * Cardinality(DOMAIN m.glob)
===============================================================================
