-------------------------------- MODULE DuckNum -------------------------------
(***************************************************************************)
(* Numbers: booleans, 64-bit integers, IEEE 754 binary64 floats, and what  *)
(* every operator makes of them.  Nothing here is approximate: integers    *)
(* and significands are natural numbers of any size, written in base 2^13, *)
(* least significant limb first, without leading zero limbs.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

Base == 8192
LB == 13

-------------------------------------------------------------------------------
(* Naturals *)
Zero == <<>>
RECURSIVE Nat_(_)
Nat_(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o Nat_(n \div Base)
One == <<1>>
Trim(a) == LET i == SelectLastInSeq(a, LAMBDA x : x # 0) IN SubSeq(a, 1, i)
At(a, i) == IF i \in 1..Len(a) THEN a[i] ELSE 0
MaxLen(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)

Add(a, b) ==
  LET r == FoldLeft(LAMBDA s, i : LET v == At(a, i) + At(b, i) + s.c IN [c |-> v \div Base, o |-> Append(s.o, v % Base)],
                    [c |-> 0, o |-> <<>>], [i \in 1..MaxLen(a, b) |-> i]) IN
  IF r.c = 0 THEN r.o ELSE Append(r.o, r.c)
\* a >= b
Sub(a, b) ==
  LET r == FoldLeft(LAMBDA s, i : LET v == At(a, i) - At(b, i) - s.c IN
                                  IF v < 0 THEN [c |-> 1, o |-> Append(s.o, v + Base)] ELSE [c |-> 0, o |-> Append(s.o, v)],
                    [c |-> 0, o |-> <<>>], [i \in 1..Len(a) |-> i]) IN
  Trim(r.o)
Less(a, b) ==
  IF Len(a) # Len(b) THEN Len(a) < Len(b)
  ELSE LET i == SelectLastInSeq([k \in 1..Len(a) |-> a[k] # b[k]], LAMBDA x : x) IN i > 0 /\ a[i] < b[i]
Mul1(a, n) ==                                             \* n < Base
  LET r == FoldLeft(LAMBDA s, x : LET v == x * n + s.c IN [c |-> v \div Base, o |-> Append(s.o, v % Base)],
                    [c |-> 0, o |-> <<>>], a) IN
  IF n = 0 THEN <<>> ELSE IF r.c = 0 THEN r.o ELSE Append(r.o, r.c)
Up(a, k) == IF a = <<>> THEN <<>> ELSE [i \in 1..k |-> 0] \o a          \* times Base^k
Mul(a, b) == FoldLeft(LAMBDA s, i : Add(s, Up(Mul1(a, b[i]), i - 1)), <<>>, [i \in 1..Len(b) |-> i])
RECURSIVE P2(_)
P2(n) == IF n = 0 THEN 1 ELSE 2 * P2(n - 1)
ShL(a, n) == Up(Mul1(a, P2(n % LB)), n \div LB)           \* a * 2^n
RECURSIVE Width(_)
Width(n) == IF n = 0 THEN 0 ELSE 1 + Width(n \div 2)
Bits(a) == IF a = <<>> THEN 0 ELSE LB * (Len(a) - 1) + Width(Last(a))
\* a \div 2^n
ShR(a, n) ==
  LET w == SubSeq(a, n \div LB + 1, Len(a))
      p == P2(n % LB) IN
  Trim([i \in 1..Len(w) |-> w[i] \div p + (IF i < Len(w) THEN w[i + 1] % p ELSE 0) * (Base \div p)])
Odd(a) == a # <<>> /\ a[1] % 2 = 1
Pow(n) == ShL(One, n)

(* Quotient and remainder, bit by bit. *)
DivMod(a, b) ==
  LET n == Bits(a)
      Bit(k) == (At(a, k \div LB + 1) \div P2(k % LB)) % 2
      Push(r, x) == LET d == Mul1(r, 2) IN IF x = 0 THEN d ELSE Add(d, One)
      r == FoldLeft(LAMBDA s, j :
                      LET t == Push(s.r, Bit(n - j)) IN
                      IF Less(t, b) THEN [q |-> Push(s.q, 0), r |-> t] ELSE [q |-> Push(s.q, 1), r |-> Sub(t, b)],
                    [q |-> <<>>, r |-> <<>>], [j \in 1..n |-> j]) IN
  r

-------------------------------------------------------------------------------
(* Integers: [n |-> negative?, m |-> magnitude] *)
Z(n, m) == [n |-> n /\ m # <<>>, m |-> m]
ZNeg(a) == Z(~a.n, a.m)
ZAdd(a, b) == IF a.n = b.n THEN Z(a.n, Add(a.m, b.m))
              ELSE IF Less(a.m, b.m) THEN Z(b.n, Sub(b.m, a.m)) ELSE Z(a.n, Sub(a.m, b.m))
ZMul(a, b) == Z(a.n # b.n, Mul(a.m, b.m))
ZQuot(a, b) == Z(a.n # b.n, DivMod(a.m, b.m).q)           \* toward zero
ZRem(a, b) == Z(a.n, DivMod(a.m, b.m).r)
ZLess(a, b) == IF a.n # b.n THEN a.n ELSE IF a.n THEN Less(b.m, a.m) ELSE Less(a.m, b.m)
Fits(a) == Less(a.m, Pow(63)) \/ (a.n /\ a.m = Pow(63))

-------------------------------------------------------------------------------
(* Floats: zero, infinite, not a number, or finite (-1)^n * m * 2^e with 2^52 <= m < 2^53, or m < 2^52 and e = -1074. *)
FZero(n) == [c |-> "zero", n |-> n, m |-> <<>>, e |-> 0]
FInf(n) == [c |-> "inf", n |-> n, m |-> <<>>, e |-> 0]
FNan == [c |-> "nan", n |-> FALSE, m |-> <<>>, e |-> 0]
FFin(n, m, e) == [c |-> "fin", n |-> n, m |-> m, e |-> e]
MinE == -1074
MaxE == 971

(* The float nearest to (-1)^n * (m + part of a unit) * 2^e; ties to even. m > 0. "more": there is a part of a unit, less
   than one, and then m has at least 55 bits. *)
Round(n, m, e, more) ==
  LET e1 == IF e + Bits(m) - 53 < MinE THEN MinE ELSE e + Bits(m) - 53
      s == e1 - e IN
  IF s <= 0 THEN IF e1 > MaxE THEN FInf(n) ELSE FFin(n, ShL(m, -s), e1)
  ELSE LET q == ShR(m, s)
           rest == Sub(m, ShL(q, s))
           half == Pow(s - 1)
           up == Less(half, rest) \/ (half = rest /\ (more \/ Odd(q)))
           q1 == IF up THEN Add(q, One) ELSE q IN
       IF q1 = <<>> THEN FZero(n)
       ELSE LET f == IF Bits(q1) = 54 THEN [m |-> Pow(52), e |-> e1 + 1] ELSE [m |-> q1, e |-> e1] IN
            IF f.e > MaxE THEN FInf(n) ELSE FFin(n, f.m, f.e)

FOfZ(z) == IF z.m = <<>> THEN FZero(FALSE) ELSE Round(z.n, z.m, 0, FALSE)
FNeg(a) == IF a.c = "nan" THEN a ELSE [a EXCEPT !.n = ~@]

\* the exact value of a finite or zero float, times 2^k
Scaled(a, k) == IF a.c = "zero" THEN Z(FALSE, <<>>) ELSE Z(a.n, ShL(a.m, a.e + k))
Low(a, b) == IF a.c = "zero" THEN IF b.c = "zero" THEN 0 ELSE b.e ELSE IF b.c = "zero" THEN a.e ELSE IF a.e < b.e THEN a.e ELSE b.e

FAdd(a, b) ==
  IF a.c = "nan" \/ b.c = "nan" THEN FNan
  ELSE IF a.c = "inf" THEN IF b.c = "inf" /\ a.n # b.n THEN FNan ELSE a
  ELSE IF b.c = "inf" THEN b
  ELSE LET e == Low(a, b)
           z == ZAdd(Scaled(a, -e), Scaled(b, -e)) IN
       IF z.m # <<>> THEN Round(z.n, z.m, e, FALSE)
       ELSE FZero(a.n /\ b.n /\ a.c = "zero" /\ b.c = "zero")
FSub(a, b) == FAdd(a, FNeg(b))
FMul(a, b) ==
  LET n == a.n # b.n IN
  IF a.c = "nan" \/ b.c = "nan" THEN FNan
  ELSE IF a.c = "inf" \/ b.c = "inf" THEN IF a.c = "zero" \/ b.c = "zero" THEN FNan ELSE FInf(n)
  ELSE IF a.c = "zero" \/ b.c = "zero" THEN FZero(n)
  ELSE Round(n, Mul(a.m, b.m), a.e + b.e, FALSE)
FDiv(a, b) ==
  LET n == a.n # b.n IN
  IF a.c = "nan" \/ b.c = "nan" \/ (a.c = b.c /\ a.c \in {"inf", "zero"}) THEN FNan
  ELSE IF a.c = "inf" \/ b.c = "zero" THEN FInf(n)
  ELSE IF b.c = "inf" \/ a.c = "zero" THEN FZero(n)
  ELSE LET k == 56 + Bits(b.m) - Bits(a.m)                 \* quotient of at least 55 bits
           k1 == IF k < 0 THEN 0 ELSE k
           d == DivMod(ShL(a.m, k1), b.m) IN
       Round(n, d.q, a.e - b.e - k1, d.r # <<>>)
FLess(a, b) ==
  IF a.c = "nan" \/ b.c = "nan" THEN FALSE
  ELSE IF a.c = "inf" /\ b.c = "inf" THEN a.n /\ ~b.n
  ELSE IF a.c = "inf" THEN a.n
  ELSE IF b.c = "inf" THEN ~b.n
  ELSE LET e == Low(a, b) IN ZLess(Scaled(a, -e), Scaled(b, -e))
FEq(a, b) == a.c # "nan" /\ (a = b \/ (a.c = "zero" /\ b.c = "zero"))

-------------------------------------------------------------------------------
(* Values: [k |-> "b", v], [k |-> "i", z], [k |-> "f", f]; outcomes also [k |-> "err"] and [k |-> "any"] (the language
   leaves it open: the exact result does not fit the integer type). *)
VB(b) == [k |-> "b", v |-> b]
VI(z) == IF Fits(z) THEN [k |-> "i", z |-> z] ELSE [k |-> "any"]
VF(f) == [k |-> "f", f |-> f]
ErrV == [k |-> "err"]

AsZ(v) == IF v.k = "b" THEN Z(FALSE, IF v.v THEN One ELSE Zero) ELSE v.z
AsF(v) == IF v.k = "f" THEN v.f ELSE FOfZ(AsZ(v))

Op(op, a, b) ==
  CASE op = "not" -> (CASE a.k = "b" -> VB(~a.v)
                        [] a.k = "i" -> VI(Z(FALSE, IF a.z.m = <<>> THEN One ELSE Zero))
                        [] a.k = "f" -> VF(IF a.f.c = "zero" THEN FOfZ(Z(FALSE, One)) ELSE FZero(FALSE)))
    [] op = "=" -> VB(IF a.k # b.k THEN FALSE ELSE IF a.k = "f" THEN FEq(a.f, b.f) ELSE a = b)
    [] op \in {"<", ">"} ->
         LET x == IF op = "<" THEN a ELSE b
             y == IF op = "<" THEN b ELSE a IN
         VB(IF a.k = "f" \/ b.k = "f" THEN FLess(AsF(x), AsF(y)) ELSE ZLess(AsZ(x), AsZ(y)))
    [] op \in {"+", "-", "*", "/"} ->
         IF a.k = "f" \/ b.k = "f"
         THEN LET x == AsF(a)
                  y == AsF(b) IN
              VF(CASE op = "+" -> FAdd(x, y) [] op = "-" -> FSub(x, y) [] op = "*" -> FMul(x, y) [] op = "/" -> FDiv(x, y))
         ELSE LET x == AsZ(a)
                  y == AsZ(b) IN
              IF op = "/" /\ y.m = <<>> THEN ErrV
              ELSE LET z == CASE op = "+" -> ZAdd(x, y) [] op = "-" -> ZAdd(x, ZNeg(y)) [] op = "*" -> ZMul(x, y)
                              [] op = "/" -> ZQuot(x, y) IN
                   IF a.k = "b" /\ b.k = "b" THEN VB(z.m # <<>>) ELSE VI(z)

(* Notations of values, in tests and traces: sign, and the significand's limbs. *)
DecF(f) == IF f.x = 2047 THEN IF f.m = <<>> THEN FInf(f.n) ELSE FNan
           ELSE IF f.x = 0 THEN IF f.m = <<>> THEN FZero(f.n) ELSE FFin(f.n, f.m, MinE)
           ELSE FFin(f.n, Add(f.m, Pow(52)), f.x - 1075)
Dec(v) == CASE v.k = "b" -> VB(v.v) [] v.k = "i" -> VI(Z(v.n, v.m)) [] v.k = "f" -> VF(DecF(v)) [] v.k = "none" -> v [] OTHER -> v
===============================================================================
